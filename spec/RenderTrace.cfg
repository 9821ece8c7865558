SPECIFICATION TraceSpec
CONSTANTS
  Slots = {"a", "b", "c"}
  Streams = {"x", "y"}
  Limit = 100
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
