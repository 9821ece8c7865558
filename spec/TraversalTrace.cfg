SPECIFICATION TraceSpec
CONSTANT N = 40
CONSTANT Places = {1, 2, 3, 4, 5, 6}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
