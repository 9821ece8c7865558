SPECIFICATION Spec
CONSTANT Slots = {1, 2, 3, 4}
CONSTANT Shapes <- Shapes0
CONSTANT Sizes = {0, 2, 3}
CONSTANT Parts = 2
CONSTANT Kinds = {"adapt"}
INVARIANT AdaptLaw
INVARIANT BlockLaw
INVARIANT MulLaw
INVARIANT CountLaw
INVARIANT Emit
CHECK_DEADLOCK FALSE
