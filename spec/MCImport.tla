-------------------------------- MODULE MCImport --------------------------------
(* All small windows of all small data files, complete, too short and too long,
   and the ways in which a descriptor can be wrong. *)
EXTENDS Import, Json, TLC
CONSTANTS Top, MaxOff
VARIABLES case, step
mvars == <<vars, case, step>>
W(r, c, lr, lc, ro, co) == <<r, c, lr, lc, ro, co>>
AllNumbers(n) == [k \in 1..n |-> "number"]
Wins == {W(r, c, lr, lc, ro, co) : r \in 0..Top, c \in 0..Top, lr \in 0..Top, lc \in 0..Top, ro \in 0..MaxOff, co \in 0..MaxOff}
WinOf(v) == Window(Desc("descriptor", "d", "none", v, AllNumbers(6)))
\* sizes of the data file around what is needed and what is described
Lengths(w) == {n \in {Needed(w) - 1, Needed(w), Needed(w) + 1, w.lr * w.lc - 1, w.lr * w.lc, w.lr * w.lc + 1} : n >= 0}
Good == {v \in Wins : LET w == WinOf(v) IN Inside(w)}
Cases ==
    {[k |-> "descriptor", v |-> v, is |-> AllNumbers(6), flaw |-> "none", data |-> "d", n |-> n, there |-> TRUE] : v \in Wins, n \in {6}} \cup
    UNION {{[k |-> "descriptor", v |-> v, is |-> AllNumbers(6), flaw |-> "none", data |-> "d", n |-> n, there |-> TRUE] : n \in Lengths(WinOf(v))} : v \in Good} \cup
    {[k |-> "descriptor", v |-> v, is |-> AllNumbers(6), flaw |-> f, data |-> "d", n |-> 20, there |-> th] : v \in {W(2, 1, 2, 1, 0, 0), W(1, 2, 3, 3, 1, 1)}, f \in {"none", "empty", "half", "other", "open"}, th \in BOOLEAN} \cup
    {[k |-> "descriptor", v |-> W(1, 2, 3, 3, 1, 1), is |-> [AllNumbers(6) EXCEPT ![i] = m], flaw |-> "none", data |-> dt, n |-> 9, there |-> TRUE] : i \in 1..6, m \in {"missing", "bad"}, dt \in {"d", "-"}} \cup
    {[k |-> "descriptor", v |-> [W(1, 1, 2, 2, 1, 1) EXCEPT ![i] = -1], is |-> AllNumbers(6), flaw |-> "none", data |-> "d", n |-> 4, there |-> TRUE] : i \in 1..6} \cup
    {[k |-> "list", v |-> <<r, c>>, is |-> AllNumbers(2), flaw |-> "none", data |-> "d", n |-> n, there |-> TRUE] : r \in -1..Top, c \in -1..Top, n \in 0..(Top * Top + 1)} \cup
    {[k |-> "list", v |-> <<2, 2>>, is |-> i, flaw |-> f, data |-> dt, n |-> 4, there |-> th] :
        i \in {<<"number", "number">>, <<"bad", "number">>, <<"number", "bad">>, <<"number", "missing">>}, f \in {"none", "empty", "half", "other"}, dt \in {"d", "-"}, th \in BOOLEAN}
MCInit == IInit /\ case \in Cases /\ step = 0
\* a field that is missing counts as zero
Values(x) == [k \in DOMAIN x.v |-> IF x.is[k] = "number" THEN x.v[k] ELSE 0]
MCNext ==
    /\ UNCHANGED case /\ step' = step + 1
    /\ \/ step = 0 /\ (IF case.there THEN Put("d", Data(case.n)) ELSE UNCHANGED vars)
       \/ step = 1 /\ Put("x", Desc(case.k, case.data, case.flaw, Values(case), case.is))
       \/ step = 2 /\ Make("a", Ramp(2, 2, 100))
       \/ step = 3 /\ \E ok \in BOOLEAN : Import("a", "x", ok)
Spec == MCInit /\ [][MCNext]_mvars
D == files["x"]
\* every described element lies in the file and no two of them are the same
Exact == step = 4 /\ slot["a"] # Ramp(2, 2, 100) =>
    /\ \A k \in DOMAIN slot["a"].e : slot["a"].e[k] \in 1..case.n
    /\ \A k, m \in DOMAIN slot["a"].e : slot["a"].e[k] = slot["a"].e[m] => k = m
    /\ Len(slot["a"].e) = slot["a"].r * slot["a"].c
\* a column of the window is contiguous, columns are a leading dimension apart
Strides == step = 4 /\ Fits(D) => LET w == Of(D) m == Contents(files[D.data], w) IN \A i \in 1..w.r, j \in 1..w.c :
    /\ i > 1 => m.e[i + (j - 1) * w.r] = m.e[i - 1 + (j - 1) * w.r] + 1
    /\ j > 1 => m.e[i + (j - 1) * w.r] = m.e[i + (j - 2) * w.r] + w.lr
Decided == step = 3 => ENABLED MCNext
Emit == step = 0 => PrintT("@@" \o ToJson(case))
=============================================================================
