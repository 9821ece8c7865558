SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4}
CONSTANT Shapes <- Shapes1
CONSTANT Sizes = {0, 1, 3, 4}
CONSTANT Parts = 3
CONSTANT Kinds = {"adapt"}
INVARIANT AdaptLaw
INVARIANT BlockLaw
INVARIANT MulLaw
INVARIANT CountLaw
INVARIANT Emit
CHECK_DEADLOCK FALSE
