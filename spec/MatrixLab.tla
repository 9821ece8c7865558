------------------------------- MODULE MatrixLab -------------------------------
(* A laboratory of matrices. Slots hold matrices in the representations of the
   library; what counts of a matrix is its value. Views (V, W) address a window
   of the dense matrix they were created on. Every operation says which slots
   change and to what; everything else stays. *)
EXTENDS MatrixValue, FiniteSets
CONSTANT Slots
VARIABLE m
Empty == [t |-> ""]
FloatTags == {"FC", "FR", "GC", "GR", "W"}
SparseTags == {"SC", "SR", "GC", "GR"}
DenseTags == {"DC", "DR", "FC", "FR", "V", "W"}
ViewTags == {"V", "W"}
MultiTags == {"MS", "MD", "ME"}
Tag(x) == IF x.t = "Y" THEN x.y ELSE x.t
IsView(x) == x.t \in ViewTags
Own(t, y, v) == [t |-> t, y |-> y, r |-> v.r, c |-> v.c, hi |-> v.hi, lo |-> v.lo]
Value(mm, s) == LET x == mm[s] IN
    IF IsView(x) THEN Window(mm[x.base], x.r0, x.c0, x.r, x.c) ELSE [r |-> x.r, c |-> x.c, hi |-> x.hi, lo |-> x.lo]
V(s) == Value(m, s)
Live(s) == m[s].t \notin {"", "gone"}
\* what is left of a matrix that was moved from: it can be dropped, assigned to and resized
Gone(x) == [t |-> "gone", y |-> x.t]
Type(s) == IF m[s].t = "gone" THEN m[s].y ELSE m[s].t
\* no view looks into s
Unwatched(s) == \A x \in Slots : Live(x) /\ IsView(m[x]) => m[x].base # s
Free(s) == ~Live(s) \/ Unwatched(s)
\* views follow the memory from the matrix in one slot to the matrix in another
Rebased(mm, f) == [x \in Slots |-> IF mm[x].t \in ViewTags /\ mm[x].base \in DOMAIN f THEN [mm[x] EXCEPT !.base = f[mm[x].base]] ELSE mm[x]]
\* what a representation keeps of a value
Kept(tag, v) == IF tag \in FloatTags THEN Single(v) ELSE IF tag = "I" THEN Build(v.r, v.c, LAMBDA i, j : Hi(v, i, j), LAMBDA i, j : 0) ELSE IF tag \in {"Z", "ZR"} THEN Zeros(v.r, v.c) ELSE v
\* m after writing value v into slot s (through a view: into the matrix below)
Written(s, v) == IF IsView(m[s]) THEN [m EXCEPT ![m[s].base] = Own(@.t, @.y, Paste(Value(m, m[s].base), m[s].r0, m[s].c0, v))]
                 ELSE [m EXCEPT ![s] = Own(@.t, @.y, v)]
LInit == m = [s \in Slots |-> Empty]
Make(s, t, y, v) == Free(s) /\ IsMatrix(v) /\ m' = [m EXCEPT ![s] = Own(t, y, Kept(IF t = "Y" THEN y ELSE t, v))]
MakeView(s, b, r0, c0, r, c) ==
    /\ Free(s) /\ s # b /\ Live(b)
    /\ r0 >= 0 /\ c0 >= 0 /\ r >= 0 /\ c >= 0 /\ r0 + r <= V(b).r /\ c0 + c <= V(b).c
    /\ LET x == m[b] IN m' = [m EXCEPT ![s] =
         [t |-> IF Tag(x) \in FloatTags THEN "W" ELSE "V", y |-> "", base |-> IF IsView(x) THEN x.base ELSE b,
          r0 |-> r0 + (IF IsView(x) THEN x.r0 ELSE 0), c0 |-> c0 + (IF IsView(x) THEN x.c0 ELSE 0), r |-> r, c |-> c]]
Drop(s) == Free(s) /\ m' = [m EXCEPT ![s] = Empty]
SetElement(s, i, j, v) == Live(s) /\ m' = Written(s, Put(V(s), i, j, IF Tag(m[s]) \in FloatTags /\ v[1] # 0 THEN <<v[1], 0>> ELSE v))
\* ---- operations with a matrix result
Both(a, b) == {Tag(m[a]), Tag(m[b])}
\* the scalar type of a result must not be coarser than that of an operand
FineEnough(tag, operands) == tag \in FloatTags => operands \subseteq FloatTags \cup {"Z", "ZR"}
(* a value computed in double precision is exact here; single precision keeps
   high parts exact and low parts as far as intermediate values allow *)
Close(tag, w, exact) ==
    /\ SameShape(w, exact) /\ IsMatrix(w) /\ w.hi = exact.hi
    /\ IF tag \in FloatTags
       THEN \/ w.lo = Single(exact).lo
            \/ \A p \in DOMAIN w.lo : Abs(w.lo[p]) <= 1000000
       ELSE w.lo = exact.lo
Conforming(op, x, y) == IF op = "mul" THEN x.c = y.r ELSE SameShape(x, y)
Exact(op, x, y) == CASE op = "add" -> Plus(x, y) [] op = "sub" -> Minus(x, y) [] op = "mul" -> Times(x, y)
Binary(op, d, a, b, t, y, w) ==
    /\ Live(a) /\ Live(b) /\ Free(d) /\ Conforming(op, V(a), V(b))
    /\ LET tag == IF t = "Y" THEN y ELSE t IN
         /\ FineEnough(tag, Both(a, b))
         \* single precision parts are multiplied in single precision
         /\ Close(IF op = "mul" /\ Both(a, b) \subseteq FloatTags \cup MultiTags THEN "FC" ELSE tag, w, Exact(op, V(a), V(b)))
    /\ m' = [m EXCEPT ![d] = Own(t, y, w)]
\* a += b, a -= b. A runtime-typed operand may have to change its representation.
Accumulate(op, a, b, w) ==
    /\ Live(a) /\ Live(b) /\ Conforming(op, V(a), V(b))
    \* a sum of a double and a single precision part: the parts are added separately
    /\ Close(IF Both(a, b) \subseteq MultiTags THEN "FC" ELSE Tag(m[a]), w, Kept(Tag(m[a]), Exact(op, V(a), V(b))))
    /\ m' = Written(a, w)
\* conversion into representation tag (t = "Y": inside a runtime type), with a filter
Converted(tag, source, v, w) == IF source \in MultiTags /\ tag \in FloatTags THEN Close(tag, w, v) ELSE Same(w, Kept(tag, v))
Convert(d, a, f, t, y, w) ==
    /\ Live(a) /\ Free(d)
    /\ Converted(IF t = "Y" THEN y ELSE t, Tag(m[a]), Filtered(V(a), f), w)
    /\ m' = [m EXCEPT ![d] = Own(t, y, w)]
Transpose(d, a, t) == Live(a) /\ Free(d) /\ Tag(m[a]) = t /\ m' = [m EXCEPT ![d] = Own(t, "", Transposed(V(a)))]
\* a = b: a keeps its representation and takes dimensions and contents of b
Assign(a, b, w) == Live(a) /\ Live(b) /\ ~IsView(m[a]) /\ (a = b \/ Unwatched(a))
    /\ Converted(Tag(m[a]), Tag(m[b]), V(b), w)
    /\ m' = [m EXCEPT ![a] = Own(@.t, @.y, w)]
Narrowed(tag, v) == IF tag \in FloatTags /\ v[1] # 0 THEN <<v[1], 0>> ELSE v
FillWith(a, v) == Live(a) /\ m' = Written(a, Const(V(a).r, V(a).c, Narrowed(Tag(m[a]), v)))
\* ---- life of the objects. A copy of a view is a view of the same window.
CopyTo(d, a) == Live(a) /\ a # d /\ Free(d) /\ m' = [m EXCEPT ![d] = m[a]]
MoveTo(d, a) == Live(a) /\ a # d /\ Free(d) /\ m' = Rebased([m EXCEPT ![d] = m[a], ![a] = Gone(m[a])], [x \in {a} |-> d])
CopyAssign(a, b) == m[a].t # "" /\ Live(b) /\ Type(a) = Type(b) /\ (a = b \/ Free(a)) /\ m' = [m EXCEPT ![a] = m[b]]
MoveAssign(a, b) == m[a].t # "" /\ Live(b) /\ a # b /\ Type(a) = Type(b) /\ Free(a)
    /\ m' = Rebased([m EXCEPT ![a] = m[b], ![b] = Gone(m[b])], [x \in {b} |-> a])
Swap(a, b) == Live(a) /\ Live(b) /\ Type(a) = Type(b)
    /\ m' = Rebased([m EXCEPT ![a] = m[b], ![b] = m[a]], [x \in {a, b} |-> IF x = a THEN b ELSE a])
\* a resized matrix holds what is written into it afterwards
Resize(a, w) == m[a].t # "" /\ Type(a) \notin ViewTags /\ Free(a) /\ IsMatrix(w) /\ m' = [m EXCEPT ![a] = Own(Type(a), "", Kept(Type(a), w))]
(* ---- preconditions: where one is violated, the operation is rejected and
   changes nothing. A matrix on external memory (y = "ext") has room for its
   elements only. *)
MakeExternal(s, v) == Free(s) /\ IsMatrix(v) /\ m' = [m EXCEPT ![s] = Own("DC", "ext", v)]
CanTake(a, r, c) == m[a].y # "ext" \/ r * c = m[a].r * m[a].c
ResizeExternal(a, w) == Live(a) /\ m[a].y = "ext" /\ Free(a) /\ IsMatrix(w) /\ CanTake(a, w.r, w.c) /\ m' = [m EXCEPT ![a] = Own("DC", "ext", w)]
InsideOf(b, r0, c0, r, c) == r0 + r <= V(b).r /\ c0 + c <= V(b).c
Diagonal(n, v) == Build(n, n, LAMBDA i, j : IF i = j THEN v[1] ELSE 0, LAMBDA i, j : IF i = j THEN v[2] ELSE 0)
FillDiagonal(a, v) == Live(a) /\ V(a).r = V(a).c /\ m' = Written(a, Diagonal(V(a).r, Narrowed(Tag(m[a]), v)))
\* a sum of two parts
Pair(d, t, r1, c1, r2, c2) == Free(d) /\ t \in MultiTags /\ r1 = r2 /\ c1 = c2 /\ m' = [m EXCEPT ![d] = Own(t, "", Const(r1, c1, <<3, 0>>))]
\* a matrix written down row by row
Rectangular(rows) == \A k \in DOMAIN rows : rows[k] = rows[1]
Literal(d, t, rows) == Free(d) /\ Rectangular(rows) /\ m' = [m EXCEPT ![d] = Own(t, "", Build(Len(rows), rows[1], LAMBDA i, j : 10 * i + j + 1, LAMBDA i, j : 0))]
\* element k in the order of the memory
StorageElement(a, k) == LET x == V(a) IN
    IF Tag(m[a]) \in {"DR", "FR", "SR", "GR"} THEN <<k \div x.c, k % x.c>> ELSE <<k % x.r, k \div x.r>>
\* ---- queries: they change nothing
Root(n) == CHOOSE k \in 0..50000 : k * k <= n /\ (k + 1) * (k + 1) > n
Query == UNCHANGED m
=============================================================================
