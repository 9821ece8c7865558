------------------------------ MODULE MCTraversal ------------------------------
(* All small objects; on each of them walks with up to three legs that change
   direction, from every place a walk can start at. *)
EXTENDS Traversal, Json, TLC
CONSTANTS Top, Seps, Rich
VARIABLES case, leg, left, seen
mvars == <<vars, case, leg, left, seen>>
Ramp == [k \in 1..N |-> k]
Objects ==
    {[how |-> "range", a |-> 2, b |-> cs, c |-> nb, d |-> sep, r0 |-> 0, c0 |-> 0, r |-> 0, cc |-> 0] : cs \in 0..Top, nb \in 0..Top, sep \in Seps} \cup
    {[how |-> h, a |-> 2, b |-> r, c |-> c, d |-> 0, r0 |-> 0, c0 |-> 0, r |-> 0, cc |-> 0] : h \in {"col", "row"}, r \in 0..Top, c \in 0..Top} \cup
    {x \in {[how |-> "window", a |-> 2, b |-> Top, c |-> Top, d |-> 0, r0 |-> r0, c0 |-> c0, r |-> r, cc |-> c] :
               r0 \in 0..(IF Rich THEN 2 ELSE 1), c0 \in 0..1, r \in 0..Top, c \in 0..Top} : x.r0 + x.r <= Top /\ x.c0 + x.cc <= Top}
Object(x) ==
    CASE x.how = "range" -> Range(x.a, x.b, x.c, x.d)
      [] x.how \in {"col", "row"} -> MatrixOn(x.a, x.b, x.c, x.how = "row")
      [] x.how = "window" -> WindowOn(MatrixOn(x.a, x.b, x.c, FALSE), x.r0, x.c0, x.r, x.cc)
Dirs == {"Row", "Column", "Major", "Minor"}
\* the place a walk begins at
Starts(o) ==
    {[k |-> "iter", from |-> f, d1 |-> "", d2 |-> "", line |-> 0] : f \in IF o.k = "matrix" THEN {"begin", "end"} ELSE {"begin", "end", "rbegin", "rend"}} \cup
    (IF o.k = "range" THEN {} ELSE
        {[k |-> "outer", from |-> f, d1 |-> d, d2 |-> "", line |-> 0] : f \in {"begin", "end"}, d \in Dirs} \cup
        UNION {{[k |-> "inner", from |-> f, d1 |-> d, d2 |-> e, line |-> n] : f \in {"begin", "end"}, n \in 0..((IF IsRow(o, d) THEN o.r ELSE o.c) - 1)} :
               d \in Dirs, e \in {e \in Dirs : TRUE}})
Long == Top * Top + 2
Legs == {<<p, q, r>> : p \in {1, Long} \cup (IF Rich THEN {2} ELSE {}), q \in {1, Long} \cup (IF Rich THEN {0, 2} ELSE {}), r \in {0, Long}}
Legal(o, s) == s.k = "inner" => Cross(o, s.d1, s.d2)
MCInit ==
    /\ \E x \in Objects : LET o == Object(x) IN
         /\ mem = Ramp /\ obj = o /\ at = [s \in Places |-> NoPlace]
         /\ \E s \in {s \in Starts(o) : Legal(o, s)}, g \in Legs, fwd \in BOOLEAN : case = [x |-> x, s |-> s, g |-> g, fwd |-> fwd]
    /\ leg = 0 /\ left = 0 /\ seen = <<>>
Put == CASE case.s.k = "iter" -> Iterate(1, case.s.from)
         [] case.s.k = "outer" -> LET p == Outer(case.s.d1, 0) IN Set(1, IF case.s.from = "begin" THEN p ELSE [p EXCEPT !.pos = Length(p)])
         [] case.s.k = "inner" -> LET p == Inner(case.s.d2, case.s.line, 0) IN Set(1, IF case.s.from = "begin" THEN p ELSE [p EXCEPT !.pos = Length(p)])
Onward == IF leg % 2 = 1 THEN case.fwd ELSE ~case.fwd
Step == IF Onward THEN Forward(1) ELSE Backward(1)
\* a leg ends after its steps or where the line ends
MCNext ==
    /\ UNCHANGED case
    /\ IF leg = 0 THEN Put /\ leg' = 1 /\ left' = case.g[1] /\ UNCHANGED seen
       ELSE /\ leg <= 3
            /\ IF left > 0 /\ ENABLED Step
               THEN /\ Step /\ left' = left - 1 /\ UNCHANGED leg
                    /\ seen' = IF Element(at'[1]) THEN Append(seen, Where(at'[1])) ELSE seen
               ELSE leg' = leg + 1 /\ left' = (IF leg < 3 THEN case.g[leg + 1] ELSE 0) /\ UNCHANGED <<vars, seen>>
Spec == MCInit /\ [][MCNext]_mvars
InRange == at[1].k # "" => at[1].pos \in -1..Length(at[1])
OnlyOwn == Element(at[1]) => Where(at[1]) \in Covered(obj)
\* a complete walk along all elements sees each of them exactly once, in the order of the addresses
Complete == leg = 2 /\ case.s.k = "iter" /\ case.s.from = "rend" /\ case.fwd /\ case.g[1] > Size(obj) /\ left = case.g[2] =>
    /\ Len(seen) = Size(obj) /\ {seen[k] : k \in DOMAIN seen} = Covered(obj)
    /\ \A k \in 1..(Len(seen) - 1) : seen[k] < seen[k + 1]
Apart == \A i \in 0..(obj.r - 1), j \in 0..(obj.c - 1), k \in 0..(obj.r - 1), l \in 0..(obj.c - 1) : Address(obj, i, j) = Address(obj, k, l) => i = k /\ j = l
Emit == leg = 0 => PrintT("@@" \o ToJson(case))
=============================================================================
