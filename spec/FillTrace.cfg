SPECIFICATION TraceSpec
CONSTANTS
  Slots = {"a", "b"}
  Unit = 1000000
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
