-------------------------------- MODULE MCBlocks --------------------------------
(* Bounded exploration of Blocks: all small matrices over one element of every
   significance class with a family of thresholds (adaptive conversion), all
   partitions of small matrices (blocking and reassembly), all conforming
   partitions of three dimensions (blocked products). *)
EXTENDS Blocks, Json, TLC
CONSTANTS Shapes, Sizes, Parts, Kinds
VARIABLES case, step
Shapes0 == {<<0, 2>>, <<1, 1>>, <<1, 3>>, <<2, 2>>}
Shapes1 == Shapes0 \cup {<<5, 1>>, <<2, 3>>}
Th(k) ==
    LET T(occ) == [d |-> <<0, 2>>, s |-> <<2, 0>>, den |-> 20, occ |-> occ] IN
    CASE k = "default" -> T(<<<<0, 0>>, <<4, 0>>, <<20, 0>>, <<4, 4>>, <<8, 4>>, <<20, 4>>, <<20, 20>>>>)
      [] k = "half"    -> T(<<<<0, 0>>, <<10, 0>>, <<20, 0>>, <<10, 10>>, <<20, 10>>, <<20, 10>>, <<20, 20>>>>)
      [] k = "double"  -> T(<<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<0, 0>>, <<20, 20>>>>)
      [] k = "parts"   -> T(<<<<0, 0>>, <<0, 0>>, <<0, 0>>, <<5, 0>>, <<15, 10>>, <<20, 15>>, <<20, 20>>>>)
      [] k = "coarse"  -> T(<<<<5, 0>>, <<15, 5>>, <<20, 15>>, <<5, 5>>, <<5, 5>>, <<20, 20>>, <<20, 20>>>>)
      [] k = "strict"  -> T(<<<<0, 0>>, <<5, 0>>, <<10, 0>>, <<5, 5>>, <<10, 5>>, <<15, 5>>, <<15, 10>>>>)
      [] k = "sparse"  -> [T(<<<<0, 0>>, <<20, 0>>, <<20, 0>>, <<20, 20>>, <<0, 0>>, <<0, 0>>, <<20, 20>>>>) EXCEPT !.d = <<0, 0>>]
      [] k = "sum"     -> [T(<<<<0, 0>>, <<8, 0>>, <<0, 0>>, <<0, 0>>, <<20, 20>>, <<0, 0>>, <<20, 20>>>>) EXCEPT !.s = <<0, 5>>]
      [] k = "integer" -> [T(<<<<0, 0>>, <<5, 0>>, <<20, 0>>, <<5, 5>>, <<10, 5>>, <<20, 10>>, <<20, 20>>>>) EXCEPT !.d = <<0, 0>>]
      [] k = "rough"   -> [T(<<<<0, 0>>, <<5, 0>>, <<20, 0>>, <<5, 5>>, <<10, 5>>, <<20, 10>>, <<20, 20>>>>) EXCEPT !.d = <<1, 0>>]
Sound(th) == th.occ[1] = <<0, 0>> /\ th.occ[2][2] = 0 /\ th.occ[3][2] = 0
AllTh == {"default", "half", "double", "parts", "coarse", "strict", "sparse", "sum", "integer", "rough"}
\* one element of every class: zero, below both, between, above both
Class == [z |-> <<0, 0>>, low |-> <<0, 1>>, mid |-> <<1, 3>>, high |-> <<-3, 5>>]
Classes == {"z", "low", "mid", "high"}
FromClasses(r, c, f) == Build(r, c, LAMBDA i, j : Class[f[j * r + i + 1]][1], LAMBDA i, j : Class[f[j * r + i + 1]][2])
\* patterns for larger matrices; "int" ones have no low parts
Pattern(p, r, c) ==
    CASE p = "diag" -> Build(r, c, LAMBDA i, j : IF i = j THEN 2 + i ELSE 0, LAMBDA i, j : IF i = j + 1 THEN 4 ELSE 0)
      [] p = "left" -> Build(r, c, LAMBDA i, j : IF j < 2 THEN 1 + i + 2 * j ELSE 0, LAMBDA i, j : 1 + i + j)
      [] p = "ints" -> Build(r, c, LAMBDA i, j : ((2 * i + 3 * j) % 5) - 1, LAMBDA i, j : 0)
      [] p = "hole" -> Build(r, c, LAMBDA i, j : IF i > 0 /\ j > 0 THEN 0 ELSE 1 + 2 * i - j, LAMBDA i, j : 0)
      [] p = "ones" -> Build(r, c, LAMBDA i, j : IF i % 2 = 0 THEN 1 ELSE 0, LAMBDA i, j : 0)
      [] p = "none" -> Zeros(r, c)
PartitionsOf(n) == {q \in UNION {[1..k -> 0..n] : k \in 1..Parts} : Total(q) = n}
Case(k, x, y, rows, mid, cols, th) == [k |-> k, x |-> x, y |-> y, rows |-> rows, mid |-> mid, cols |-> cols, th |-> th]
NoMatrix == Zeros(0, 0)
Init ==
    /\ BInit /\ step = 0
    /\ \/ /\ "adapt" \in Kinds
          /\ \E sh \in Shapes : \E f \in [1..(sh[1] * sh[2]) -> Classes], th \in AllTh :
               case = Case("adapt", FromClasses(sh[1], sh[2], f), NoMatrix, <<>>, <<>>, <<>>, th)
       \/ /\ "block" \in Kinds
          /\ \E r \in Sizes, c \in Sizes : \E rows \in PartitionsOf(r), cols \in PartitionsOf(c), p \in {"diag", "left", "ints", "hole"}, th \in {"default", "half", "double", "strict"} :
               case = Case("block", Pattern(p, r, c), NoMatrix, rows, <<>>, cols, th)
       \/ /\ "mul" \in Kinds
          /\ \E r \in Sizes, n \in Sizes, c \in Sizes : \E rows \in PartitionsOf(r), mid \in PartitionsOf(n), cols \in PartitionsOf(c) :
             \E p \in {"diag", "ints", "hole", "ones"}, q \in {"ints", "hole", "none"}, th \in {"integer", "rough"} :
               /\ (Len(rows) + Len(mid) + Len(cols) + r + 2 * n + 3 * c) % 3 = (IF p = "diag" THEN 0 ELSE IF p = "ints" THEN 1 ELSE 2)
               /\ case = Case("mul", Pattern(p, r, n), Pattern(q, n, c), rows, mid, cols, th)
\* the product block by block
RECURSIVE Accumulated(_, _, _, _, _)
Accumulated(a, b, k, l, n) == IF n = 0 THEN Zeros(a.rows[k], b.cols[l]) ELSE Plus(Accumulated(a, b, k, l, n - 1), Times(At2(a, k, n), At2(b, n, l)))
BlockProduct(a, b) ==
    LET Inner(k, l) == Accumulated(a, b, k, l, Len(a.cols))
    IN [p \in 1..(Len(a.rows) * Len(b.cols)) |-> Block("DC", Inner(((p - 1) % Len(a.rows)) + 1, (p - 1) \div Len(a.rows) + 1))]
TH == Th(case.th)
K == case.k
Next ==
    /\ step < 4 /\ step' = step + 1 /\ UNCHANGED case
    /\ CASE step = 0 -> Make(1, "DC", "", case.x)
         [] step = 1 -> IF K = "mul" THEN Make(2, "DC", "", case.y) ELSE UNCHANGED m
         [] step = 2 -> (CASE K = "adapt" -> IF CanAdapt(TH, V(1)) THEN Adapt(3, 1, TH) ELSE UNCHANGED m
                          [] K = "block" -> IF CanBlock(TH, V(1), case.rows, case.cols) THEN BlockUp(3, 1, case.rows, case.cols, TH) ELSE UNCHANGED m
                          [] K = "mul" -> BlockUp(3, 1, case.rows, case.mid, TH))
         [] step = 3 -> (CASE K = "adapt" -> UNCHANGED m
                          [] K = "block" -> IF Live(3) THEN Reassemble(4, 3, "DC") ELSE UNCHANGED m
                          [] K = "mul" -> BlockUp(4, 2, case.mid, case.cols, TH))
Spec == Init /\ [][Next]_<<m, case, step>>
Done == step = 4
\* ---- C02: nothing above the thresholds is lost, the first fitting representation is taken
Reproduced(v, w, th) == \A p \in DOMAIN v.hi :
    LET x == <<v.hi[p], v.lo[p]>> y == <<w.hi[p], w.lo[p]>> IN
    CASE Passes(Above(th.s), x) -> y = x
      [] Passes(Above(th.d), x) -> y = x \/ y = (IF x[1] = 0 THEN x ELSE <<x[1], 0>>)
      [] OTHER -> y \in {x, <<0, 0>>, <<x[1], 0>>}
AdaptLaw == Done /\ K = "adapt" /\ Live(3) =>
    /\ Fits(TH, m[3].y, case.x) /\ \A k \in 1..(Index(m[3].y) - 1) : ~Fits(TH, Order[k], case.x)
    /\ Sound(TH) => Reproduced(case.x, V(3), TH)
\* ---- C03: every element is held by exactly one block at the right place
BlockLaw == Done /\ K = "block" /\ Live(3) =>
    /\ IsGrid(m[3]) /\ Total(m[3].rows) = case.x.r /\ Total(m[3].cols) = case.x.c
    /\ SameShape(V(4), case.x) /\ (Sound(TH) => Reproduced(case.x, V(4), TH))
    /\ case.th = "double" => \A p \in DOMAIN case.x.hi : V(4).hi[p] = case.x.hi[p]
    /\ \A p \in DOMAIN m[3].blk : m[3].blk[p].y = "DC" =>
         Same(ValueOf(m[3].blk[p]), Pieces(case.x, case.rows, case.cols)[p])
\* ---- C08: the product of the blocks is the product of the matrices
MulLaw == Done /\ K = "mul" =>
    LET g == Grid(case.rows, case.cols, BlockProduct(m[3], m[4])) IN
    IsGrid(g) /\ Same(Assembled(g), Times(Assembled(m[3]), Assembled(m[4])))
\* ---- C28
CountLaw == Done => \A s \in {3, 4} : m[s].t = "B" => SumUpTo(Counts(m[s]), 7) = Len(m[s].rows) * Len(m[s].cols)
Emit == Done => PrintT("@@" \o ToJson([k |-> K, x |-> case.x, y |-> case.y, rows |-> case.rows, mid |-> case.mid, cols |-> case.cols, th |-> TH]))
=============================================================================
