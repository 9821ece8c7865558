SPECIFICATION Spec
CONSTANTS
  Files = {"a", "b"}
  Slots = {"x", "y"}
  MaxLen = 3
  Wide = TRUE
INVARIANTS Genuine RoundTrip Emit
PROPERTIES Protected ReadOnly Missing
CHECK_DEADLOCK FALSE
