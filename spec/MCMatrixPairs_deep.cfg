SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4, 5}
CONSTANT Dims = {0, 1, 2, 3}
CONSTANT Rich = TRUE
INVARIANT TypeOK
INVARIANT Laws
INVARIANT FrameKept
INVARIANT Emit
PROPERTY OperandsKept
CHECK_DEADLOCK FALSE
