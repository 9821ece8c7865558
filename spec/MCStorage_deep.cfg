SPECIFICATION Spec
CONSTANTS
  Slots = {"a", "b", "c"}
  Fixed = 4
  Room = 14
  Depth = 4
  Kinds = {"F", "X"}
INVARIANT Consistent
INVARIANT Buffers
INVARIANT Emit
PROPERTY OnlyNamed
PROPERTY OnlyCovered
PROPERTY Separate
PROPERTY Kept
CHECK_DEADLOCK FALSE
