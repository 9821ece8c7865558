SPECIFICATION TraceSpec
POSTCONDITION TraceAccepted
INVARIANT Bijective
CHECK_DEADLOCK FALSE
