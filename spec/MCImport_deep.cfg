SPECIFICATION Spec
CONSTANTS
  Slots = {"a"}
  Top = 4
  MaxOff = 3
INVARIANTS Exact Strides Decided Emit
CHECK_DEADLOCK FALSE
