--------------------------- MODULE ValueChecker ---------------------------
(* Absolute value filters and maps keyed by them.                          *)
(* Numbers are abstracted to their rank in a strictly increasing palette   *)
(* (negative rank = negated number), which is exact: filters only compare. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slot
Kinds == {"EN", "EI", "II", "EE"}     \* lower bound / upper bound: Exclusive, Inclusive, None
NoFilter == [k |-> "none", tt |-> "", lo |-> 0, hi |-> 0]

VARIABLES filter,   \* filter[s]: description of the filter in slot s
          order,    \* set of <<d1, d2>>: d1 was observed to be less than d2
          seen,     \* pairs of descriptions compared so far
          keyed     \* function from filter descriptions to values: the map keyed by filters
fvars == <<filter, order, seen, keyed>>

Abs(v) == IF v < 0 THEN -v ELSE v

Admissible(k, lo, hi) ==
    CASE k = "EN" -> lo >= 0
      [] k = "II" -> lo >= 0 /\ hi >= 0 /\ lo <= hi
      [] OTHER    -> lo >= 0 /\ hi >= 0 /\ lo < hi

\* The description identifies the filter: an unbounded filter has no upper threshold.
Describe(k, tt, lo, hi) == [k |-> k, tt |-> tt, lo |-> lo, hi |-> IF k = "EN" THEN 0 ELSE hi]

Accepts(d, v) ==
    LET a == Abs(v) IN
    CASE d.k = "EN" -> a > d.lo
      [] d.k = "EI" -> a > d.lo /\ a <= d.hi
      [] d.k = "II" -> a >= d.lo /\ a <= d.hi
      [] d.k = "EE" -> a > d.lo /\ a < d.hi

FInit == /\ filter = [s \in Slot |-> NoFilter]
         /\ order = {} /\ seen = {} /\ keyed = <<>>

Make(s, k, tt, lo, hi) ==
    /\ filter' = IF Admissible(k, lo, hi) THEN [filter EXCEPT ![s] = Describe(k, tt, lo, hi)] ELSE filter
    /\ UNCHANGED <<order, seen, keyed>>
MakeResult(k, lo, hi) == IF Admissible(k, lo, hi) THEN "ok" ELSE "rejected"

Test(s, v) == filter[s] # NoFilter /\ UNCHANGED fvars
TestResult(s, v) == Accepts(filter[s], v)

\* Comparing: which total order is used is the implementation's choice, but the answers given
\* must be those of one strict total order on descriptions.
Compare(a, b, r) ==
    LET p == filter[a] q == filter[b] IN
    /\ p # NoFilter /\ q # NoFilter
    /\ (<<p, q>> \in seen => r = (<<p, q>> \in order))     \* equal filters are treated alike, always
    /\ order' = IF r THEN order \cup {<<p, q>>} ELSE order
    /\ seen' = seen \cup {<<p, q>>}
    /\ UNCHANGED <<filter, keyed>>

Descriptions == {x[1] : x \in seen} \cup {x[2] : x \in seen}
Irreflexive == \A p \in Descriptions : <<p, p>> \notin order
Asymmetric == \A x \in order : <<x[2], x[1]>> \notin order
\* both answers known and both "no": only for equal descriptions
Identifies == \A x \in seen : (x \notin order /\ <<x[2], x[1]>> \in seen /\ <<x[2], x[1]>> \notin order) => x[1] = x[2]
\* no cycle among observed answers (transitivity of what was observed)
Transitive == \A x, y \in order : x[2] = y[1] /\ <<x[1], y[2]>> \in seen => <<x[1], y[2]>> \in order
StrictOrder == Irreflexive /\ Asymmetric /\ Identifies /\ Transitive

Put(s, v) == /\ filter[s] # NoFilter
             /\ keyed' = [d \in DOMAIN keyed \cup {filter[s]} |-> IF d = filter[s] THEN v ELSE keyed[d]]
             /\ UNCHANGED <<filter, order, seen>>
Get(s) == filter[s] # NoFilter /\ UNCHANGED fvars
GetResult(s) == IF filter[s] \in DOMAIN keyed THEN keyed[filter[s]] ELSE -1
===========================================================================
