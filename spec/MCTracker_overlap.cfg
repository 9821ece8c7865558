SPECIFICATION MSpec
CONSTANTS N = 2 MaxOps = 6 Nested = FALSE
INVARIANTS Adds Settled Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
