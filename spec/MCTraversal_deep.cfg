SPECIFICATION Spec
CONSTANT N = 40
CONSTANT Places = {1, 2, 3, 4}
CONSTANT Top = 4
CONSTANT Seps = {0, 1, 3}
CONSTANT Rich = TRUE
INVARIANT InRange
INVARIANT OnlyOwn
INVARIANT Complete
INVARIANT Apart
INVARIANT Emit
CHECK_DEADLOCK FALSE
