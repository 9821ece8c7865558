SPECIFICATION TraceSpec
CONSTANT Slots = {0, 1, 2}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
