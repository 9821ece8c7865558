SPECIFICATION TraceSpec
INVARIANTS Partition WithinMax WithinMin KeptWhole
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
