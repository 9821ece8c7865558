SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4, 5}
CONSTANT Top = 3
CONSTANT Parts = 5
INVARIANT Covers
INVARIANT Emit
PROPERTY RejectedWithoutEffect
CHECK_DEADLOCK FALSE
