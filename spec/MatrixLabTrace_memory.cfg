SPECIFICATION TraceSpec
CONSTANT Slots = {1, 2, 3, 4, 5, 6}
CONSTANT Structure = FALSE
CONSTANT Sizes = FALSE
CONSTANT Memory = TRUE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
