---------------------------- MODULE MCPreconditions ----------------------------
(* Every operation that has a precondition with operands that satisfy it and with
   operands that violate it in every way (small shapes). The operations on pairs
   of representations come from the driver (environment variable OPS). *)
EXTENDS MatrixLab, Json, IOUtils, TLC
CONSTANTS Dims, Deep
Lefts == IF Deep THEN {<<2, 3>>, <<3, 1>>, <<1, 1>>, <<0, 2>>, <<3, 3>>, <<2, 0>>} ELSE {<<2, 3>>, <<0, 2>>}
Ops == ndJsonDeserialize(IOEnv.OPS)             \* [op, to, a, b]
VARIABLES case, step
Ramp(r, c, k) == Build(r, c, LAMBDA i, j : IF (i + j) % 3 = 2 THEN 0 ELSE k + i - 2 * j, LAMBDA i, j : 0)
None == [o |-> [op |-> "", to |-> "", a |-> "", b |-> ""], p |-> <<0, 0>>, q |-> <<0, 0>>, w |-> <<0, 0, 0, 0>>, rows |-> <<>>]
Pairs == Dims \X Dims
Windows == Dims \X Dims \X Dims \X Dims
Diagonals == {"DC", "DR", "FC", "FR", "I", "V", "W"}
Rows == {<<a>> : a \in 0..3} \cup ((0..3) \X (0..3)) \cup ((0..3) \X (0..3) \X (0..3))
Cases ==
    {[None EXCEPT !.o = Ops[k], !.p = p, !.q = q] : k \in DOMAIN Ops, p \in Lefts, q \in Pairs} \cup
    {[None EXCEPT !.o.op = "view", !.o.a = t, !.p = p, !.w = w] : t \in {"DC", "FC", "V", "W"}, p \in Lefts, w \in Windows} \cup
    {[None EXCEPT !.o.op = "diag", !.o.a = t, !.p = p] : t \in Diagonals, p \in Pairs} \cup
    {[None EXCEPT !.o.op = o, !.o.a = "DC", !.p = p, !.q = q] : o \in {"extresize", "extassign"}, p \in Lefts, q \in Pairs} \cup
    {[None EXCEPT !.o.op = o, !.o.a = t, !.p = p, !.q = q] : o \in {"pair", "preset"}, t \in MultiTags, p \in Lefts, q \in Pairs} \cup
    {[None EXCEPT !.o.op = "literal", !.o.a = t, !.rows = x] : t \in {"DC", "DR", "FC", "I"}, x \in Rows}
Init == LInit /\ step = 0 /\ case \in Cases
Op == case.o.op
Bin == Op \in {"add", "sub", "mul", "iadd", "isub"}
Framed(x) == Paste(Const(x.r + 3, x.c + 2, <<9, 0>>), 1, 1, x)
BaseTag(t) == IF t = "V" THEN "DC" ELSE "FC"
Put1(s, t, x) == IF t \in ViewTags THEN Make(s + 3, BaseTag(t), "", Framed(x)) ELSE Make(s, t, "", x)
Put2(s, t, x) == IF t \in ViewTags THEN MakeView(s, s + 3, 1, 1, x.r, x.c) ELSE UNCHANGED m
A == Ramp(case.p[1], case.p[2], 2)
B == Ramp(case.q[1], case.q[2], 1)
Old(t) == [t |-> t, y |-> "", r |-> 1, c |-> 2, hi |-> <<3, 3>>, lo |-> <<0, 0>>]
\* ---- the operation accepted, or rejected without effect
Accepts ==
    CASE Bin -> Conforming(IF Op = "mul" THEN "mul" ELSE "add", V(1), V(2))
      [] Op = "view" -> InsideOf(1, case.w[1], case.w[2], case.w[3], case.w[4])
      [] Op = "diag" -> V(1).r = V(1).c
      [] Op = "extresize" -> CanTake(1, case.q[1], case.q[2])
      [] Op = "extassign" -> CanTake(1, V(2).r, V(2).c)
      [] Op \in {"pair", "preset"} -> case.p = case.q
      [] Op = "literal" -> Rectangular(case.rows)
Act ==
    CASE Op \in {"add", "sub", "mul"} -> Binary(Op, 3, 1, 2, "DC", "", Exact(Op, V(1), V(2)))
      [] Op \in {"iadd", "isub"} -> IF case.o.a \in DenseTags
            THEN LET o == IF Op = "iadd" THEN "add" ELSE "sub" IN Accumulate(o, 1, 2, Kept(case.o.a, Exact(o, V(1), V(2))))
            ELSE UNCHANGED m
      [] Op = "view" -> MakeView(3, 1, case.w[1], case.w[2], case.w[3], case.w[4])
      [] Op = "diag" -> FillDiagonal(1, <<5, 0>>)
      [] Op = "extresize" -> ResizeExternal(1, B)
      [] Op = "extassign" -> Assign(1, 2, Kept("DC", V(2)))
      [] Op = "pair" -> Pair(1, case.o.a, case.p[1], case.p[2], case.q[1], case.q[2])
      [] Op = "preset" -> Pair(1, case.o.a, case.p[1], case.p[2], case.q[1], case.q[2])
      [] Op = "literal" -> Literal(1, case.o.a, case.rows)
Next ==
    /\ step < 5 /\ step' = step + 1 /\ UNCHANGED case
    /\ CASE step = 0 -> IF Op \in {"extresize", "extassign"} THEN MakeExternal(1, A)
                        ELSE IF Op = "preset" THEN m' = [m EXCEPT ![1] = Old(case.o.a)]
                        ELSE IF Op \in {"pair", "literal"} THEN UNCHANGED m
                        ELSE Put1(1, case.o.a, A)
         [] step = 1 -> IF case.o.a \in ViewTags THEN Put2(1, case.o.a, A) ELSE UNCHANGED m
         [] step = 2 -> IF Bin THEN Put1(2, case.o.b, B) ELSE IF Op = "extassign" THEN Put1(2, "DC", B) ELSE UNCHANGED m
         [] step = 3 -> IF Bin THEN Put2(2, case.o.b, B) ELSE UNCHANGED m
         [] step = 4 -> IF Accepts THEN Act ELSE UNCHANGED m
Spec == Init /\ [][Next]_<<m, case, step>>
TypeOK == \A s \in Slots : Live(s) => IsMatrix(V(s))
Done == step = 5
RejectedWithoutEffect == [][step = 4 /\ ~Accepts => m' = m]_<<m, case, step>>
\* the external memory is never exceeded, views never reach outside of their matrix
RoomKept == \A s \in Slots : Live(s) /\ m[s].y = "ext" => V(s).r * V(s).c = case.p[1] * case.p[2]
ViewsInside == \A s \in Slots : Live(s) /\ IsView(m[s]) => LET x == m[s] b == V(x.base) IN x.r0 + x.r <= b.r /\ x.c0 + x.c <= b.c
Emit == Done => PrintT("@@" \o ToJson([k |-> Op, o |-> case.o, a |-> A, b |-> B, w |-> case.w, rows |-> case.rows, p |-> case.p, q |-> case.q]))
=============================================================================
