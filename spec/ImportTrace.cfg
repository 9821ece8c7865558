SPECIFICATION TraceSpec
CONSTANT Slots = {"a", "b", "c"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
