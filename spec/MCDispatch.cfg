SPECIFICATION MSpec
INVARIANTS AtMostOnce Finished Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
