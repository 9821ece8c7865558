----------------------------- MODULE MCBlockSize -----------------------------
EXTENDS BlockSize, TLC, Json
CONSTANTS MaxLen, MaxVal
MInit == \E n \in 0..MaxLen : \E d \in [1..n -> 0..MaxVal], mn \in 0..3, mx \in 1..7 : 2 * mn <= mx /\ Start(d, mn, mx)
MSpec == MInit /\ [][Step]_bvars /\ WF_bvars(Step)
Emit == (phase = "search" /\ borders = {0, N(detect)}) => PrintT("@@" \o ToJson(<<detect, min, max>>))
==============================================================================
