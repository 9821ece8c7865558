SPECIFICATION Spec
CONSTANTS
  Names = {"a"}
  Top = 3
  Wide = 4
INVARIANTS Banded Drawn Rounded Emit
CHECK_DEADLOCK FALSE
