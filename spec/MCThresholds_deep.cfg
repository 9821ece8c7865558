SPECIFICATION Spec
CONSTANT Slots = {0, 1}
CONSTANT MaxOps = 3
INVARIANT Separate
INVARIANT TypeOK
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
