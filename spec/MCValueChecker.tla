-------------------------- MODULE MCValueChecker --------------------------
(* Exhaustive exploration; every behaviour of maximal length is printed as JSON. *)
EXTENDS ValueChecker, TLC, Json
CONSTANTS Ranks, Depth, Mode
VARIABLE hist
RanksSigned == -2..3
mvars == <<fvars, hist>>
\* reference order used by the model in place of the implementation's choice
KindNo(k) == CASE k = "EN" -> 0 [] k = "EI" -> 1 [] k = "II" -> 2 [] k = "EE" -> 3
RefLess(p, q) == \/ KindNo(p.k) < KindNo(q.k)
                 \/ p.k = q.k /\ p.lo < q.lo
                 \/ p.k = q.k /\ p.lo = q.lo /\ p.hi < q.hi
MInit == FInit /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
MakeAny == \E k \in Kinds, lo \in Ranks, hi \in Ranks :
    /\ Make(1, k, "double", lo, hi)
    /\ Log(<<"make", 1, k, "double", lo, hi>>)
TestAny == \E v \in Ranks : Test(1, v) /\ Log(<<"test", 1, "double", v>>)
\* C12: make three admissible filters, then compare
Make3 == \E k \in Kinds, lo \in Ranks, hi \in Ranks :
    /\ Admissible(k, lo, hi) /\ (k = "EN" => hi = 0) /\ Len(hist) < 3
    /\ Make(Len(hist) + 1, k, "double", lo, hi)
    /\ Log(<<"make", Len(hist) + 1, k, "double", lo, hi>>)
Pairs == << <<1,2>>, <<2,1>>, <<2,3>>, <<3,2>>, <<1,3>>, <<3,1>>, <<1,1>>, <<2,2>>, <<3,3>> >>
Compare3 == /\ Len(hist) >= 3 /\ Len(hist) < 12
            /\ LET p == Pairs[Len(hist) - 2] IN
               Compare(p[1], p[2], RefLess(filter[p[1]], filter[p[2]])) /\ Log(<<"less", p[1], p[2]>>)
MNext == /\ Len(hist) < Depth
         /\ \/ Mode = "accept" /\ (IF hist = <<>> THEN MakeAny ELSE TestAny)
            \/ Mode = "order" /\ (Make3 \/ Compare3)
MSpec == MInit /\ [][MNext]_mvars
\* acceptance is monotone: widening never loses values; a filter and its complement are exclusive
AcceptShape == \A s \in {1} : filter[s] # NoFilter => \A v \in Ranks :
    /\ Accepts(filter[s], v) = Accepts(filter[s], -v)
    /\ Accepts(filter[s], v) => Abs(v) >= filter[s].lo
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
===========================================================================
