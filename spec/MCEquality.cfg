SPECIFICATION Spec
CONSTANT Top = 3
INVARIANT Sound
INVARIANT Symmetric
INVARIANT Reflexive
INVARIANT ShapeLaw
INVARIANT Emit
CHECK_DEADLOCK FALSE
