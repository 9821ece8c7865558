SPECIFICATION TraceSpec
INVARIANTS AtMostOnce Finished
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
