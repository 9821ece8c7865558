SPECIFICATION Spec
CONSTANT Slots = {0, 1}
CONSTANT MaxOps = 2
INVARIANT Separate
INVARIANT TypeOK
INVARIANT Emit
PROPERTY OthersUntouched
CHECK_DEADLOCK FALSE
