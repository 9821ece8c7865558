SPECIFICATION Spec
CONSTANTS
  Slots = {"a"}
  Top = 3
  MaxOff = 2
INVARIANTS Exact Strides Decided Emit
CHECK_DEADLOCK FALSE
