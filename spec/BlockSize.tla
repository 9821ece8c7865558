------------------------------ MODULE BlockSize ------------------------------
(* Search for block borders of one matrix dimension.                        *)
(* detect[p] is the change of the sparsity profile between index p-1 and p  *)
(* (a border may be placed there), p \in 1..n-1.                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
VARIABLES detect, min, max, borders, phase
bvars == <<detect, min, max, borders, phase>>
N(d) == Len(d) + 1
Prev(B, p) == Max({b \in B : b < p})
Next(B, p) == Min({b \in B : b > p})
MinOf(a, b) == IF a < b THEN a ELSE b
Balance(B, p) == MinOf(p - Prev(B, p), Next(B, p) - p)
\* borders that leave both parts large enough
Admissible(d, mn, B) == {p \in 1..Len(d) : p \notin B /\ p - Prev(B, p) >= mn /\ Next(B, p) - p >= mn}
\* largest change first, among equal changes the most balanced split
Best(d, mn, B) ==
    LET A == Admissible(d, mn, B) IN
    IF A = {} THEN {} ELSE
    LET top == Max({d[p] : p \in A})  A1 == {p \in A : d[p] = top}
        bal == Max({Balance(B, p) : p \in A1})
    IN {p \in A1 : Balance(B, p) = bal}
Sizes(B) == LET s == SetToSortSeq(B, <) IN [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]
TooLarge(B, mx) == \E i \in DOMAIN Sizes(B) : Sizes(B)[i] > mx
\* The search goes on while a block is too large. A dimension that fits may be left
\* in one piece or be split once.
MayStop(d, mn, mx, B) == ~TooLarge(B, mx)
MustStop(d, mn, mx, B) == Best(d, mn, B) = {} \/ (~TooLarge(B, mx) /\ (Cardinality(B) > 2 \/ N(d) <= mn))

Start(d, mn, mx) == detect = d /\ min = mn /\ max = mx /\ borders = {0, N(d)} /\ phase = "search"
Place(p) == /\ phase = "search" /\ ~MustStop(detect, min, max, borders)
            /\ p \in Best(detect, min, borders)
            /\ borders' = borders \cup {p} /\ UNCHANGED <<detect, min, max, phase>>
Stop == /\ phase = "search" /\ (MustStop(detect, min, max, borders) \/ MayStop(detect, min, max, borders))
        /\ phase' = "done" /\ UNCHANGED <<detect, min, max, borders>>
Step == Stop \/ \E p \in 1..Len(detect) : Place(p)

\* Every result R of the search, without enumerating the orders of equally good
\* borders. Apart from the decision which block is split next and when to stop,
\* blocks do not influence each other, and the rank (change, balance) of the placed
\* borders never increases. So Q can be reached iff every block can be split on its
\* own and no border left out ranks above a placed one; the search stops with
\* R = Q + {p} if p was still needed.
Rank(d, a, p, b) == d[p] * 10000 + MinOf(p - a, b - p)
RankIn(d, B, p) == Rank(d, Prev(B, p), p, Next(B, p))
AdmissibleIn(d, mn, a, b) == {p \in (a + 1)..(b - 1) : p - a >= mn /\ b - p >= mn}
Unplaced == 1000000000
\* lowest ranks of the placed borders, over all ways to split (a,b) at the borders in Q
RECURSIVE LowestRanks(_, _, _, _, _)
LowestRanks(d, mn, a, b, Q) ==
    IF \A p \in Q : p <= a \/ p >= b THEN {Unplaced} ELSE
    LET A == AdmissibleIn(d, mn, a, b) IN
    IF A = {} THEN {} ELSE
    LET top == Max({Rank(d, a, p, b) : p \in A}) IN
    UNION {LET X == LowestRanks(d, mn, a, p, Q)  Y == LowestRanks(d, mn, p, b, Q) IN
           {Min({top, x, y}) : x \in X, y \in Y} : p \in {q \in A \cap Q : Rank(d, a, q, b) = top}}
Free(d, mn, Q) ==
    LET L == LowestRanks(d, mn, 0, N(d), Q)
        rest == {RankIn(d, Q, p) : p \in Admissible(d, mn, Q)}
    IN L # {} /\ (rest = {} \/ Max(rest) <= Max(L))
Reaches(d, mn, mx, R) ==
    /\ MustStop(d, mn, mx, R) \/ MayStop(d, mn, mx, R)
    /\ \/ R = {0, N(d)}
       \/ \E p \in R \ {0, N(d)} :
          LET Q == R \ {p} IN
          /\ ~MustStop(d, mn, mx, Q) /\ p \in Best(d, mn, Q)
          /\ Free(d, mn, Q)
RECURSIVE Partial(_, _)
Partial(s, i) == IF i = 0 THEN 0 ELSE s[i] + Partial(s, i - 1)
BordersOf(s) == {Partial(s, i) : i \in 0..Len(s)}
IsResult(d, mn, mx, s) == /\ \A i \in DOMAIN s : s[i] >= 1
                          /\ Partial(s, Len(s)) = N(d)
                          /\ Reaches(d, mn, mx, BordersOf(s))

\* --- profile of a matrix given by the binary exponents of its elements ----
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
\* e is a sequence of r rows of c elements
RowDetect(e, r, c) == [i \in 1..(r - 1) |-> SumTo([j \in 1..c |-> Abs(e[i][j] - e[i + 1][j])], c)]
ColDetect(e, r, c) == [j \in 1..(c - 1) |-> SumTo([i \in 1..r |-> Abs(e[i][j] - e[i][j + 1])], r)]
\* block sizes of a dimension of n; one without elements is kept as one empty block
IsResultOf(n, d, mn, mx, s) == IF n = 0 THEN s = <<0>> ELSE IsResult(d, mn, mx, s)
PlusD(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]

\* --- properties -----------------------------------------------------------
Partition == phase = "done" => Partial(Sizes(borders), Len(Sizes(borders))) = N(detect)
WithinMax == phase = "done" /\ max >= 1 => \A i \in DOMAIN Sizes(borders) : Sizes(borders)[i] <= max
WithinMin == N(detect) >= min => \A i \in DOMAIN Sizes(borders) : Sizes(borders)[i] >= min
KeptWhole == N(detect) <= min => borders = {0, N(detect)}
\* checks the reduction: every result of Step is one of Reaches
ResultOK == phase = "done" => IsResult(detect, min, max, Sizes(borders))
Terminates == <>(phase = "done")
==============================================================================
