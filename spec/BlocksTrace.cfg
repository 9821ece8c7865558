SPECIFICATION TraceSpec
CONSTANT Slots = {1, 2, 3, 4, 5, 6, 7, 8}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
