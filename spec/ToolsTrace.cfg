SPECIFICATION TraceSpec
CONSTANTS
  Names = {"a", "b", "c"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
