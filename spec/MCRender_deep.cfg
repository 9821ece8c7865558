SPECIFICATION Spec
CONSTANTS
  Slots = {"a"}
  Streams = {"x"}
  Limit = 100
  Top = 4
  Values = {0, 1}
  Thresholds = {0, 1, 2, 3, 5, 8}
INVARIANTS Printed Faithful Classified Emit
CHECK_DEADLOCK FALSE
