SPECIFICATION TraceSpec
CONSTANT N = 720
CONSTANT Places = {1, 2, 3, 4, 5, 6}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
