SPECIFICATION Spec
CONSTANTS
  Slots = {"a"}
  Unit = 1000000
  Top = 4
  Values = {0, 1, 7}
INVARIANTS Decided Increasing Hilbert Diagonal Outside Emit
CHECK_DEADLOCK FALSE
