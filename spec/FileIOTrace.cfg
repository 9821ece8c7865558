SPECIFICATION TraceSpec
CONSTANTS
  Files = {"a", "b", "c"}
  Slots = {"p", "q", "x", "y"}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
