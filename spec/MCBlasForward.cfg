SPECIFICATION MSpec
INVARIANTS ExactlyOnce DistinctWrites Emit
CHECK_DEADLOCK FALSE
