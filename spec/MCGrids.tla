-------------------------------- MODULE MCGrids --------------------------------
(* Grids of blocks written down block by block, with every combination of small
   block shapes, and partitions of a matrix that fit or do not fit. *)
EXTENDS Blocks, Json, TLC
CONSTANTS Top, Parts
VARIABLES case, step
Shapes == (1..Top) \X (1..Top)
Th0 == [d |-> <<0, 0>>, s |-> <<3, 0>>, den |-> 1, occ |-> [k \in 1..7 |-> <<IF k = 7 THEN 1 ELSE 0, IF k = 7 THEN 1 ELSE 0>>]]
Seqs == {<<a>> : a \in 0..Parts} \cup ((0..Parts) \X (0..Parts))
None == [k |-> "", br |-> 0, bc |-> 0, sh |-> <<>>, rows |-> <<>>, cols |-> <<>>]
Cases ==
    UNION {{[None EXCEPT !.k = "grid", !.br = n, !.bc = k, !.sh = f] : f \in [1..(n * k) -> Shapes]} : n \in 1..2, k \in 1..2} \cup
    {[None EXCEPT !.k = "block", !.rows = x, !.cols = y] : x \in Seqs, y \in Seqs}
Init == BInit /\ step = 0 /\ case \in Cases
X == Build(3, 2, LAMBDA i, j : 1 + i + 2 * j, LAMBDA i, j : 0)
BlockAt(p) == LET s == case.sh[p] IN Build(s[1], s[2], LAMBDA i, j : p + 2 * i + 3 * j, LAMBDA i, j : 0)
N == case.br * case.bc
RowsOf == [k \in 1..case.br |-> case.sh[k][1]]
ColsOf == [k \in 1..case.bc |-> case.sh[(k - 1) * case.br + 1][2]]
From == [p \in 1..N |-> p]
Accepts == IF case.k = "grid" THEN CanCompose(RowsOf, ColsOf, From) ELSE Partition(case.rows, 3) /\ Partition(case.cols, 2)
Next ==
    /\ UNCHANGED case /\ step < 6
    /\ IF case.k = "grid"
       THEN CASE step < 4 -> /\ step' = step + 1
                             /\ IF step < N THEN Make(step + 1, "Y", "DC", BlockAt(step + 1)) ELSE UNCHANGED m
              [] step = 4 -> step' = 6 /\ IF Accepts THEN Compose(5, RowsOf, ColsOf, From) ELSE UNCHANGED m
       ELSE CASE step = 0 -> step' = 4 /\ Make(1, "DC", "", X)
              [] step = 4 -> step' = 6 /\ IF Accepts THEN BlockUp(5, 1, case.rows, case.cols, Th0) ELSE UNCHANGED m
Spec == Init /\ [][Next]_<<m, case, step>>
Done == step = 6
RejectedWithoutEffect == [][step = 4 /\ ~Accepts => m' = m]_<<m, case, step>>
\* an accepted grid covers its blocks, each exactly once
Covers == Done /\ m[5].t = "B" =>
    LET g == m[5] v == Assembled(g) IN
    /\ IsGrid(g) /\ IsMatrix(v)
    /\ case.k = "block" => Same(v, X)
    /\ case.k = "grid" => \A k \in 1..case.br, l \in 1..case.bc :
         Same(Window(v, Before(g.rows, k), Before(g.cols, l), g.rows[k], g.cols[l]), BlockAt((l - 1) * case.br + k))
Emit == Done => PrintT("@@" \o ToJson([case EXCEPT !.sh = IF case.k = "grid" THEN case.sh ELSE <<>>]))
=============================================================================
