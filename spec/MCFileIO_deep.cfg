SPECIFICATION Spec
CONSTANTS
  Files = {"a", "b"}
  Slots = {"x", "y"}
  MaxLen = 4
  Wide = FALSE
INVARIANTS Genuine RoundTrip Emit
PROPERTIES Protected ReadOnly Missing
CHECK_DEADLOCK FALSE
