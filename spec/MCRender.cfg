SPECIFICATION Spec
CONSTANTS
  Slots = {"a"}
  Streams = {"x"}
  Limit = 100
  Top = 3
  Values = {0, 1}
  Thresholds = {0, 1, 2, 5}
INVARIANTS Printed Faithful Classified Emit
CHECK_DEADLOCK FALSE
