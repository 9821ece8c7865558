SPECIFICATION TraceSpec
CONSTANTS
  Slots = {"a", "b", "c", "d"}
  Fixed = 4
  Room = 14
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
