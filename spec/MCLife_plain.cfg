SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3}
CONSTANT Depth = 3
CONSTANT Views = FALSE
INVARIANT WellTyped
INVARIANT ViewsInside
INVARIANT Emit
PROPERTY Frame
PROPERTY Moves
CHECK_DEADLOCK FALSE
