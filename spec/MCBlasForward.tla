--------------------------- MODULE MCBlasForward ---------------------------
EXTENDS BlasForward, TLC, Json
VARIABLE last
\* per argument type the values used; every position of a call can be told apart by some pattern
Pattern(k, p, t) ==
    CASE t = "char" -> 65 + p
      [] t = "int" -> IF k = 1 THEN 10 + p ELSE IF k = 2 THEN 0 ELSE IF k = 3 THEN -p ELSE 1
      [] OTHER -> IF k = 1 THEN 100 + p ELSE IF k = 2 THEN 0 ELSE IF k = 3 THEN -p ELSE 1
MInit == BInit /\ last = <<>>
MNext == \E b \in {"OpenBLAS", "IntelMKL"}, n \in Names, k \in 1..4 :
    /\ last = <<>> /\ Supports(b, n)
    /\ LET vals == [p \in DOMAIN Fn(n).args |-> Pattern(k, p, Fn(n).args[p].t)] IN
       /\ Call(b, n, vals) /\ last' = <<b, n, vals>>
MSpec == MInit /\ [][MNext]_<<bvars, last>>
\* a writable argument is distinguishable from every other one after the call
DistinctWrites == last = <<>> \/ LET a == After(last[2], last[3]) IN
    \A p, q \in DOMAIN a : p # q /\ ~Fn(last[2]).args[p].c /\ ~Fn(last[2]).args[q].c => a[p] # a[q]
Emit == last # <<>> => PrintT("@@" \o ToJson(last))
=============================================================================
