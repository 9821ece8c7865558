SPECIFICATION MSpec
CONSTANTS MaxLen = 7 MaxVal = 2
INVARIANTS Partition WithinMax WithinMin KeptWhole ResultOK Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
