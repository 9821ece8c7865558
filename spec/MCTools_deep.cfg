SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  Top = 5
  Wide = 6
INVARIANTS Banded Drawn Rounded Emit
CHECK_DEADLOCK FALSE
