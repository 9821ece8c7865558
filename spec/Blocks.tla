--------------------------------- MODULE Blocks ---------------------------------
(* Adaptive conversion and blocked matrices. Slots hold plain matrices, runtime
   typed matrices and grids of runtime-typed blocks. *)
EXTENDS MatrixValue, FiniteSets
CONSTANT Slots
VARIABLE m
Empty == [t |-> ""]
\* the representations a runtime-typed matrix can have, in order of preference
Order == <<"Z", "GC", "FC", "SC", "MS", "MD", "DC">>
Index(y) == CHOOSE k \in DOMAIN Order : Order[k] = y
Single4 == {"GC", "FC"}
Plain(t, v) == [t |-> t, y |-> "", r |-> v.r, c |-> v.c, hi |-> v.hi, lo |-> v.lo]
Dyn(y, v) == [t |-> "Y", y |-> y, r |-> v.r, c |-> v.c, hi |-> v.hi, lo |-> v.lo]
Block(y, v) == [y |-> y, r |-> v.r, c |-> v.c, hi |-> v.hi, lo |-> v.lo]
Grid(rows, cols, blk) == [t |-> "B", rows |-> rows, cols |-> cols, blk |-> blk]      \* blocks column by column
ValueOf(x) == [r |-> x.r, c |-> x.c, hi |-> x.hi, lo |-> x.lo]
V(s) == ValueOf(m[s])
Live(s) == m[s].t \notin {"", "gone"}
IsPlain(s) == m[s].t \in {"DC", "DR", "FC", "FR"}
\* ---- sizes along one dimension
RECURSIVE SumUpTo(_, _)
SumUpTo(q, k) == IF k = 0 THEN 0 ELSE q[k] + SumUpTo(q, k - 1)
Total(q) == SumUpTo(q, Len(q))
Before(q, k) == SumUpTo(q, k - 1)
Partition(q, n) == Len(q) > 0 /\ Total(q) = n
\* number of the block holding position i
Holder(q, i) == CHOOSE k \in DOMAIN q : Before(q, k) <= i /\ i < Before(q, k) + q[k]
At2(g, k, l) == g.blk[(l - 1) * Len(g.rows) + k]
\* ---- the value of a grid
Assembled(g) == Build(Total(g.rows), Total(g.cols),
    LAMBDA i, j : LET k == Holder(g.rows, i) l == Holder(g.cols, j) IN Hi(At2(g, k, l), i - Before(g.rows, k), j - Before(g.cols, l)),
    LAMBDA i, j : LET k == Holder(g.rows, i) l == Holder(g.cols, j) IN Lo(At2(g, k, l), i - Before(g.rows, k), j - Before(g.cols, l)))
IsGrid(g) == /\ Len(g.blk) = Len(g.rows) * Len(g.cols)
             /\ \A k \in DOMAIN g.rows, l \in DOMAIN g.cols : LET b == At2(g, k, l) IN b.r = g.rows[k] /\ b.c = g.cols[l] /\ IsMatrix(b)
(* ---- adaptive conversion. th: [d, s, den, occ]: significance thresholds of
   double and single precision, and for every representation the shares (over
   den) of elements above them that are allowed *)
Above(x) == [k |-> "x", lower |-> x, upper |-> <<-1, 0>>]
Between(th) == [k |-> "xi", lower |-> th.d, upper |-> th.s]
Fits(th, y, v) == LET o == th.occ[Index(y)] n == v.r * v.c IN
    /\ CountPassing(v, Above(th.d)) * th.den <= o[1] * n
    /\ CountPassing(v, Above(th.s)) * th.den <= o[2] * n
Fitting(th, v) == {k \in DOMAIN Order : Fits(th, Order[k], v)}
Choice(th, v) == Order[CHOOSE k \in Fitting(th, v) : \A l \in Fitting(th, v) : k <= l]
\* what the chosen representation holds
Held(th, y, v) ==
    CASE y = "Z" -> Zeros(v.r, v.c)
      [] y = "GC" -> Single(Filtered(v, Above(th.d)))
      [] y = "FC" -> Single(v)
      [] y = "SC" -> Filtered(v, Above(th.d))
      [] y \in {"MS", "MD"} -> Plus(Filtered(v, Above(th.s)), Single(Filtered(v, Between(th))))
      [] y = "DC" -> v
Converted(th, v) == LET y == Choice(th, v) IN Block(y, Held(th, y, v))
\* ---- actions
BInit == m = [s \in Slots |-> Empty]
Make(s, t, y, v) == IsMatrix(v) /\ m' = [m EXCEPT ![s] = IF t = "Y" THEN Dyn(y, v) ELSE Plain(t, v)]
MakeView(s, b, r0, c0, r, c) == Live(b) /\ m' = [m EXCEPT ![s] = Plain(IF m[b].t \in {"DC", "V"} THEN "V" ELSE "W", Window(V(b), r0, c0, r, c))]
Drop(s) == m' = [m EXCEPT ![s] = Empty]
CanAdapt(th, v) == Fitting(th, v) # {}
Adapt(d, a, th) == Live(a) /\ CanAdapt(th, V(a)) /\ LET b == Converted(th, V(a)) IN m' = [m EXCEPT ![d] = Dyn(b.y, ValueOf(b))]
Piece(v, rows, cols, k, l) == Window(v, Before(rows, k), Before(cols, l), rows[k], cols[l])
Pieces(v, rows, cols) == [p \in 1..(Len(rows) * Len(cols)) |-> Piece(v, rows, cols, ((p - 1) % Len(rows)) + 1, (p - 1) \div Len(rows) + 1)]
CanBlock(th, v, rows, cols) == LET q == Pieces(v, rows, cols) IN \A p \in DOMAIN q : CanAdapt(th, q[p])
BlockUp(d, a, rows, cols, th) ==
    /\ Live(a) /\ Partition(rows, V(a).r) /\ Partition(cols, V(a).c) /\ CanBlock(th, V(a), rows, cols)
    /\ LET q == Pieces(V(a), rows, cols) IN m' = [m EXCEPT ![d] = Grid(rows, cols, [p \in DOMAIN q |-> Converted(th, q[p])])]
\* a grid of existing runtime-typed matrices
Composed(rows, cols, from) == Grid(rows, cols, [p \in DOMAIN from |-> Block(m[from[p]].y, V(from[p]))])
CanCompose(rows, cols, from) == IsGrid(Composed(rows, cols, from))
Compose(d, rows, cols, from) == CanCompose(rows, cols, from) /\ m' = [m EXCEPT ![d] = Composed(rows, cols, from)]
PutBlock(d, i, j, a) ==      \* i, j from 0
    LET p == j * Len(m[d].rows) + i + 1 IN
    /\ m[d].t = "B" /\ m[a].t = "Y" /\ m[a].r = m[d].rows[i + 1] /\ m[a].c = m[d].cols[j + 1]
    /\ m' = [m EXCEPT ![d].blk[p] = Block(m[a].y, V(a))]
Reassemble(d, a, t) == m[a].t = "B" /\ m' = [m EXCEPT ![d] = Plain(t, IF t = "FC" THEN Single(Assembled(m[a])) ELSE Assembled(m[a]))]
Expand(d, a) == m[a].t = "Y" /\ m' = [m EXCEPT ![d] = Plain("DC", V(a))]
CopyTo(d, a) == Live(a) /\ a # d /\ m' = [m EXCEPT ![d] = m[a]]
MoveTo(d, a) == Live(a) /\ a # d /\ m' = [m EXCEPT ![d] = m[a], ![a] = [t |-> "gone"]]
CopyAssign(a, b) == Live(b) /\ m[a].t # "" /\ m' = [m EXCEPT ![a] = m[b]]
MoveAssign(a, b) == Live(b) /\ m[a].t # "" /\ a # b /\ m' = [m EXCEPT ![a] = m[b], ![b] = [t |-> "gone"]]
Swap(a, b) == Live(a) /\ Live(b) /\ m' = [m EXCEPT ![a] = m[b], ![b] = m[a]]
\* ---- products
NoLow(v) == \A p \in DOMAIN v.lo : v.lo[p] = 0
NoHigh(v) == \A p \in DOMAIN v.hi : v.hi[p] = 0     \* tiny numbers
NearOrEqual(w, e, exactly) == /\ SameShape(w, e) /\ IsMatrix(w) /\ w.hi = e.hi
    /\ IF exactly THEN w.lo = e.lo ELSE \A p \in DOMAIN w.lo : Abs(w.lo[p] - e.lo[p]) <= 1000000
Multiply(d, a, b, blk) ==
    /\ m[a].t = "B" /\ m[b].t = "B" /\ m[a].cols = m[b].rows
    /\ LET g == Grid(m[a].rows, m[b].cols, blk) x == Assembled(m[a]) y == Assembled(m[b]) IN
         /\ IsGrid(g) /\ \A p \in DOMAIN blk : blk[p].y \in {Order[k] : k \in DOMAIN Order}
         /\ NearOrEqual(Assembled(g), Times(x, y), (NoLow(x) /\ NoLow(y)) \/ (NoHigh(x) /\ NoLow(y)) \/ (NoHigh(y) /\ NoLow(x)))
         /\ m' = [m EXCEPT ![d] = g]
\* ---- statistics
TypeMap(g) == [p \in DOMAIN g.blk |-> Index(g.blk[p].y) - 1]
Counts(g) == [k \in 1..7 |-> Cardinality({p \in DOMAIN g.blk : g.blk[p].y = Order[k]})]
=============================================================================
