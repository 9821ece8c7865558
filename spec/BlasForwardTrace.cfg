SPECIFICATION TraceSpec
INVARIANT ExactlyOnce
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
