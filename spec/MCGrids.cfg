SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4, 5}
CONSTANT Top = 2
CONSTANT Parts = 3
INVARIANT Covers
INVARIANT Emit
PROPERTY RejectedWithoutEffect
CHECK_DEADLOCK FALSE
