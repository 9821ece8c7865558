SPECIFICATION TraceSpec
CONSTANT Slots = {1, 2, 3, 4, 5, 6}
CONSTANT Structure = TRUE
CONSTANT Sizes = FALSE
CONSTANT Memory = FALSE
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
