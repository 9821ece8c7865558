------------------------------ MODULE Tracker ------------------------------
(* The register of tracked operations. Operations (handles) are started and *)
(* completed; several can be under way at once (nested or overlapping). A   *)
(* completed operation is credited exactly once, to its own identity, with  *)
(* the time that passed since its start, however it was left.               *)
(* Times are pairs <<m, u>> meaning m * 10^6 + u (TLC integers are small).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N                 \* number of operation identities 0..N-1
VARIABLES now, running, count, total
tvars == <<now, running, count, total>>
Ids == 0..(N - 1)
Unit == 1000000
TZero == <<0, 0>>
TAdd(a, b) == LET u == a[2] + b[2] IN <<a[1] + b[1] + (u \div Unit), u % Unit>>
TSub(a, b) == LET u == a[2] - b[2] IN <<a[1] - b[1] + (IF u < 0 THEN -1 ELSE 0), IF u < 0 THEN u + Unit ELSE u>>
Init == /\ now = TZero /\ running = <<>>
        /\ count = [i \in Ids |-> 0] /\ total = [i \in Ids |-> TZero]
Live(h) == h \in DOMAIN running
Begin(h, i) == /\ ~Live(h) /\ i \in Ids
               /\ running' = [x \in DOMAIN running \cup {h} |-> IF x = h THEN [id |-> i, start |-> now] ELSE running[x]]
               /\ UNCHANGED <<now, count, total>>
Advance(d) == now' = TAdd(now, d) /\ UNCHANGED <<running, count, total>>
\* completion of a set of operations, in any way of leaving them
CompleteAll(hs) ==
    LET hits(i) == {h \in hs : running[h].id = i}
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN TZero ELSE LET h == CHOOSE x \in S : TRUE IN TAdd(TSub(now, running[h].start), Sum(S \ {h}))
    IN /\ \A h \in hs : Live(h)
       /\ running' = [x \in DOMAIN running \ hs |-> running[x]]
       /\ count' = [i \in Ids |-> count[i] + Cardinality(hits(i))]
       /\ total' = [i \in Ids |-> TAdd(total[i], Sum(hits(i)))]
       /\ UNCHANGED now
Complete(h) == CompleteAll({h})
\* an operation that starts and completes by itself, m times, without time passing
Instant(i, m) == count' = [count EXCEPT ![i] = @ + m] /\ UNCHANGED <<now, running, total>>
\* the report: one line per identity that completed at least once
Report == {<<i, count[i], total[i]>> : i \in {j \in Ids : count[j] > 0}}
=============================================================================
