SPECIFICATION MSpec
CONSTANTS N = 2 MaxOps = 7 Nested = TRUE
INVARIANTS Adds Settled Emit
PROPERTY Monotone
CHECK_DEADLOCK FALSE
