SPECIFICATION MSpec
INVARIANTS StrictOrder AcceptShape Emit
CHECK_DEADLOCK FALSE
CONSTANTS Slot = {1,2,3}
 Ranks <- RanksSigned
 Depth = 2
 Mode = "accept"
