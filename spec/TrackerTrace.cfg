SPECIFICATION TraceSpec
CONSTANT N = 25
INVARIANT CountsNatural
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
