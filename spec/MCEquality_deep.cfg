SPECIFICATION Spec
CONSTANT Top = 4
INVARIANT Sound
INVARIANT Symmetric
INVARIANT Reflexive
INVARIANT ShapeLaw
INVARIANT Emit
CHECK_DEADLOCK FALSE
