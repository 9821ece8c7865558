SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4, 5}
CONSTANT Dims = {0, 1, 2, 3}
CONSTANT Deep = FALSE
INVARIANT TypeOK
INVARIANT RoomKept
INVARIANT ViewsInside
INVARIANT Emit
PROPERTY RejectedWithoutEffect
CHECK_DEADLOCK FALSE
