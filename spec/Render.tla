--------------------------------- MODULE Render ---------------------------------
(* Printed matrices and pattern images. A slot holds one matrix or the two parts of
   a multiple matrix; values are quarters (an element x is the number x / 4), in
   column-major order. A stream remembers whether it prints full information. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Streams, Limit
VARIABLES slot, full
vars == <<slot, full>>
Part(k, r, c, e) == [k |-> k, r |-> r, c |-> c, e |-> e]
\* kinds: dense (DC DR FC FR IC IR, V a view), sparse (SC SR GC GR), Z zero
Dense(k) == k \in {"DC", "DR", "FC", "FR", "IC", "IR", "V"}
Sparse(k) == k \in {"SC", "SR", "GC", "GR"}
RowOrder(k) == k \in {"SR", "GR"}
Empty == <<>>                        \* a dynamic matrix that holds nothing is <<Nothing>>
Nothing == Part("nothing", 0, 0, <<>>)
At(p, i, j) == p.e[i + (j - 1) * p.r]
RInit == slot = [s \in Slots |-> Empty] /\ full = [x \in Streams |-> FALSE]
Make(s, parts) == slot' = [slot EXCEPT ![s] = parts] /\ UNCHANGED full
Mode(x, on) == full' = [full EXCEPT ![x] = on] /\ UNCHANGED slot
\* a view shows later changes of its matrix; other matrices are independent
Set(s, k, p, v) == slot[s] # Empty /\ slot' = [slot EXCEPT ![s][k].e[p] = v] /\ UNCHANGED full
\* ---- text. A line is [t, n, at]: its label, its numbers, where its cells end
TooLarge(p) == IF Sparse(p.k) THEN p.r * p.c > Limit ELSE p.r > Limit \/ p.c > Limit
NbLines(p, f) ==
    CASE p.k = "nothing" -> 1
      [] p.k = "Z" -> 3
      [] Sparse(p.k) -> IF TooLarge(p) THEN 1 ELSE 6
      [] OTHER -> IF TooLarge(p) THEN 1 ELSE (IF p.c = 0 THEN 0 ELSE p.r) + (IF f THEN 2 ELSE 0)
IsText(l, t) == l.t = t /\ l.n = <<>>
IsLine(l, t, n) == l.t = t /\ l.n = n
DenseText(p, f, n, L) ==
    IF TooLarge(p) THEN IsText(L[1], "Matrix too large for printing.")
    ELSE LET h == IF f THEN 2 ELSE 0 IN
        /\ f => IsText(L[1], n) /\ IsLine(L[2], "Dimension", <<p.r, p.c>>)
        /\ p.c > 0 => \A i \in 1..p.r : LET l == L[h + i] IN
            /\ l.t = "" /\ l.n = [j \in 1..p.c |-> At(p, i, j)]
            /\ l.at = L[h + 1].at
\* what the three arrays of a compressed matrix stand for
Lines(p) == IF RowOrder(p.k) THEN p.r ELSE p.c
InLine(o, i, k) == o[i] < k /\ k <= o[i + 1]
Entry(p, V, K, o, i, j) ==
    LET line == IF RowOrder(p.k) THEN i ELSE j key == (IF RowOrder(p.k) THEN j ELSE i) - 1
        hit == {k \in DOMAIN V : InLine(o, line, k) /\ K[k] = key} IN
    IF hit = {} THEN 0 ELSE V[CHOOSE k \in hit : TRUE]
SparseText(p, n, L) ==
    IF TooLarge(p) THEN IsLine(L[1], "SparseMatrix too large", <<p.r * p.c>>)
    ELSE /\ IsText(L[1], n) /\ IsLine(L[2], "Size", <<p.r * p.c>>) /\ IsLine(L[3], "Dimension", <<p.r, p.c>>)
         /\ L[4].t = "Value array" /\ L[5].t = "Key array" /\ L[6].t = "Offset array"
         /\ LET V == L[4].n K == L[5].n o == L[6].n IN
            /\ Len(o) = Lines(p) + 1 /\ Len(K) = Len(V) /\ o[1] = 0 /\ o[Len(o)] = Len(V)
            /\ \A i \in 1..Lines(p) : o[i] <= o[i + 1]
            /\ \A i \in 1..p.r, j \in 1..p.c : Entry(p, V, K, o, i, j) = At(p, i, j)
PartText(p, f, n, L) ==
    CASE p.k = "nothing" -> IsText(L[1], "No Matrix found.")
      [] p.k = "Z" -> IsText(L[1], n) /\ IsLine(L[2], "Size", <<p.r * p.c>>) /\ IsLine(L[3], "Dimension", <<p.r, p.c>>)
      [] Sparse(p.k) -> SparseText(p, n, L)
      [] OTHER -> DenseText(p, f, n, L)
RECURSIVE Text(_, _, _, _)
Text(ps, f, names, L) ==
    IF ps = <<>> THEN L = <<>>
    ELSE LET n == NbLines(ps[1], f) IN
         /\ Len(L) >= n /\ PartText(ps[1], f, names[1], SubSeq(L, 1, n))
         /\ Text(Tail(ps), f, Tail(names), SubSeq(L, n + 1, Len(L)))
\* blank lines are of no importance
Printing(L) == SelectSeq(L, LAMBDA l : l.t # "" \/ l.n # <<>>)
Print(x, s, names, L) ==
    /\ slot[s] # Empty /\ UNCHANGED vars
    /\ Len(names) = Len(slot[s]) /\ Text(slot[s], full[x], names, Printing(L))
\* ---- images. The palette is a sequence of [i, c, q]: symbol, colour, threshold (quarters)
Abs(v) == IF v < 0 THEN -v ELSE v
Reached(pal, v) == {k \in DOMAIN pal : Abs(v) >= pal[k].q}
Class(pal, bg, v) == IF Reached(pal, v) = {} THEN bg ELSE pal[CHOOSE k \in Reached(pal, v) : \A m \in Reached(pal, v) : k <= m].i
Pixels(p, pal, bg) == [i \in 1..p.r |-> [j \in 1..p.c |-> Class(pal, bg, At(p, i, j))]]
Colours(pal, bg, bgc) == [k \in 1..(Len(pal) + 1) |-> IF k <= Len(pal) THEN [i |-> pal[k].i, c |-> pal[k].c] ELSE [i |-> bg, c |-> bgc]]
\* x is the image read from the file
Pattern(s, pal, bg, bgc, x) ==
    /\ slot[s] # Empty /\ Dense(slot[s][1].k) /\ UNCHANGED vars
    /\ LET p == slot[s][1] IN
       /\ x.wellFormed /\ x.columns = p.c /\ x.rows = p.r /\ x.colours = Len(pal) + 1 /\ x.chars = 1
       /\ x.palette = Colours(pal, bg, bgc) /\ x.pixels = Pixels(p, pal, bg)
\* a place that can not be written is an error
NoPlace(s) == slot[s] # Empty /\ UNCHANGED vars
=============================================================================
