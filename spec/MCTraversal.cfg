SPECIFICATION Spec
CONSTANT N = 40
CONSTANT Places = {1, 2, 3, 4}
CONSTANT Top = 3
CONSTANT Seps = {0, 2}
CONSTANT Rich = FALSE
INVARIANT InRange
INVARIANT OnlyOwn
INVARIANT Complete
INVARIANT Apart
INVARIANT Emit
CHECK_DEADLOCK FALSE
