---------------------------------- MODULE Fill ----------------------------------
(* Filled and generated matrices. A slot holds a matrix with its storage order;
   windows of a matrix are filled through views. Elements are integers; the
   fraction 1/k (k > 1) is written as Unit + k. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Unit
VARIABLES slot, made
vars == <<slot, made>>
NoMatrix == [kind |-> "none", r |-> 0, c |-> 0, e |-> <<>>]
Mat(k, r, c, e) == [kind |-> k, r |-> r, c |-> c, e |-> e]
\* kinds: (D)ense, (F)loat, (I)nteger, (S)parse double, (G) sparse float, followed by the order of storage C or R
Row(k) == k \in {"DR", "FR", "IR", "SR", "GR"}
Sparse(k) == k \in {"SC", "SR", "GC", "GR"}
\* e is always in column-major order
RowOf(r, p) == (p - 1) % r
ColOf(r, p) == (p - 1) \div r
Filler(f, v) == [f |-> f, v |-> v]
Recip(k) == IF k = 1 THEN 1 ELSE Unit + k
Square(f, r, c) == f.f = "diagonal" => r = c
\* the element a filler writes at row i, column j of an r x c matrix
Written(f, row, r, c, i, j) ==
    CASE f.f = "all" -> f.v
      [] f.f = "increasing" -> IF row THEN i * c + j + 1 ELSE j * r + i + 1
      [] f.f = "hilbert" -> Recip(i + j + 1)
      [] f.f = "diagonal" -> IF i = j THEN f.v ELSE 0
Filled(f, k, r, c) == Mat(k, r, c, [p \in 1..(r * c) |-> Written(f, Row(k), r, c, RowOf(r, p), ColOf(r, p))])
\* a large matrix filled likewise, as some of its elements show it; it is not kept
Large(k, r, c, f, some, ok) ==
    /\ ok = Square(f, r, c) /\ UNCHANGED vars
    /\ ok => \A q \in DOMAIN some : some[q].x = Written(f, Row(k), r, c, some[q].i, some[q].j)
Inside(w, m) == w.r0 + w.r <= m.r /\ w.c0 + w.c <= m.c
InWindow(w, i, j) == i >= w.r0 /\ i < w.r0 + w.r /\ j >= w.c0 /\ j < w.c0 + w.c
FInit == slot = [s \in Slots |-> NoMatrix] /\ made = <<>>
\* constructed or resized with a filler: nothing of the previous matrix is left
\* a sparse matrix has room for some number of elements, increasing numbers need all of them
New(s, k, r, c, f, room, ok) ==
    /\ ok = (Square(f, r, c) /\ (Sparse(k) => room = r * c)) /\ UNCHANGED made
    /\ slot' = IF ok THEN [slot EXCEPT ![s] = Filled(f, k, r, c)] ELSE slot
\* applied to a matrix or to a window of it; when the window has the wrong shape nothing changes
Apply(s, f, ok) ==
    /\ slot[s].kind # "none" /\ ok = Square(f, slot[s].r, slot[s].c) /\ UNCHANGED made
    /\ slot' = IF ok THEN [slot EXCEPT ![s] = Filled(f, slot[s].kind, slot[s].r, slot[s].c)] ELSE slot
Windowed(m, f, w) == Mat(m.kind, m.r, m.c, [p \in 1..(m.r * m.c) |->
    LET i == RowOf(m.r, p) j == ColOf(m.r, p) IN
    IF InWindow(w, i, j) THEN Written(f, Row(m.kind), w.r, w.c, i - w.r0, j - w.c0) ELSE m.e[p]])
Part(s, f, w, ok) ==
    /\ slot[s].kind # "none" /\ Inside(w, slot[s]) /\ ok = Square(f, w.r, w.c) /\ UNCHANGED made
    /\ slot' = IF ok THEN [slot EXCEPT ![s] = Windowed(slot[s], f, w)] ELSE slot
\* ---- random matrices. A recipe is [r, c, seed, lo, hi]; x are its elements: sign, thousandths
\* of the negative decimal exponent and an identity, equal for equal numbers
Recipe(r, c, seed, lo, hi) == [r |-> r, c |-> c, seed |-> seed, lo |-> lo, hi |-> hi]
InRange(q, x) == \A k \in DOMAIN x : x[k].e >= q.lo - 1 /\ x[k].e <= q.hi + 1 /\ x[k].s \in {-1, 1}
Known(q) == \E k \in DOMAIN made : made[k].q = q
Made(q) == made[CHOOSE k \in DOMAIN made : made[k].q = q].x
\* seeds are independent of each other when they are positive and below the period of the generator
Distinct(p, q) == p.seed # q.seed /\ p.seed > 0 /\ q.seed > 0 /\ p.lo < p.hi /\ p.lo = q.lo /\ p.hi = q.hi /\ p.r = q.r /\ p.c = q.c /\ p.r * p.c >= 4
Ids(x) == [k \in DOMAIN x |-> x[k].id]
Mixed(q, x) == Len(x) >= 60 =>
    /\ {x[k].s : k \in DOMAIN x} = {-1, 1}
    /\ q.hi - q.lo >= 1000 => /\ \E k \in DOMAIN x : 2 * x[k].e < q.lo + q.hi
                              /\ \E k \in DOMAIN x : 2 * x[k].e > q.lo + q.hi
Generate(q, x) ==
    /\ UNCHANGED slot
    /\ Len(x) = q.r * q.c /\ InRange(q, x) /\ Mixed(q, x)
    /\ IF Known(q) THEN Ids(x) = Ids(Made(q)) /\ UNCHANGED made
       ELSE /\ \A k \in DOMAIN made : Distinct(made[k].q, q) => Ids(made[k].x) # Ids(x)
            /\ made' = Append(made, [q |-> q, x |-> x])
=============================================================================
