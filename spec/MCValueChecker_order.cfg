SPECIFICATION MSpec
INVARIANTS StrictOrder Emit
CHECK_DEADLOCK FALSE
CONSTANTS Slot = {1,2,3}
 Ranks = {0,1,2}
 Depth = 12
 Mode = "order"
