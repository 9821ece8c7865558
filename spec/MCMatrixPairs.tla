----------------------------- MODULE MCMatrixPairs -----------------------------
(* Every operation on every pair of representations it is offered for, with all
   small shapes and a family of contents. The operations come from the driver
   (environment variable OPS), the shapes and contents are enumerated here. *)
EXTENDS MatrixLab, Json, IOUtils, TLC
CONSTANTS Dims, Rich
Ops == ndJsonDeserialize(IOEnv.OPS)             \* [op, to, a, b]
VARIABLES case, step
\* contents of an r x c matrix by name
Ramp(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * (1 + i + 3 * j)
Content(p, r, c) ==
    CASE p = "zero" -> Zeros(r, c)
      [] p = "ramp" -> Build(r, c, LAMBDA i, j : Ramp(i, j), LAMBDA i, j : 0)
      [] p = "mixed" -> Build(r, c, LAMBDA i, j : IF (i + 2 * j) % 3 = 0 THEN 0 ELSE 2 + j - 2 * i, LAMBDA i, j : 5 - 2 * i + j)
      [] p = "low" -> Build(r, c, LAMBDA i, j : 0, LAMBDA i, j : Ramp(j, i))
      [] p = "some" -> Build(r, c, LAMBDA i, j : IF (i + j) % 2 = 1 THEN 7 - i ELSE 0, LAMBDA i, j : 0)
      [] p = "last" -> Build(r, c, LAMBDA i, j : IF i = r - 1 /\ j = c - 1 THEN -3 ELSE 0, LAMBDA i, j : 0)
      [] p = "first" -> Build(r, c, LAMBDA i, j : IF i = 0 /\ j = 0 THEN 4 ELSE 0, LAMBDA i, j : 0)
Exactly == {"zero", "ramp", "some", "last", "first"}
WithLow == {"mixed", "low"}
Left == IF Rich THEN Exactly \cup WithLow ELSE {"mixed", "some", "last"}
Right(op) == IF op = "mul" THEN (IF Rich THEN Exactly ELSE {"ramp", "first"})
             ELSE IF op \in {"conv", "filt", "trans", "q"} THEN {"none"}
             ELSE IF Rich THEN Exactly \cup WithLow ELSE {"ramp", "low", "first"}
Shapes(op) == IF op = "mul" THEN {<<r, k, k, c>> : r \in Dims, k \in Dims, c \in Dims} ELSE {<<r, c, r, c>> : r \in Dims, c \in Dims}
Slot(t) == IF t = "Z" \/ t = "ZR" THEN "zero" ELSE ""
Fs == [k : {"x"}, lower : {<<0, 0>>, <<2, 0>>}, upper : {<<-1, 0>>}] \cup
      [k : {"xi", "xx", "ii"}, lower : {<<1, 0>>, <<0, 3>>}, upper : {<<3, 0>>}]
None == [k |-> "all", lower |-> <<0, 0>>, upper |-> <<-1, 0>>]
WithFilter == {"nsig", "occ", "occl", "occs"}
WithThreshold == {"larger", "smaller", "occl", "occs"}
Filters(o) == IF o.op = "filt" THEN Fs ELSE IF o.op = "q" /\ o.to \in WithFilter THEN (Fs \cup [k : {"xf"}, lower : {<<2, 0>>, <<0, 3>>}, upper : {<<-1, 0>>}]) ELSE {None}
\* thresholds below, at and above the interesting value
Offsets(o) == IF o.op = "q" /\ o.to \in WithThreshold THEN {0 - 1, 0, 1} ELSE {0}
Init ==
    /\ LInit /\ step = 0
    /\ \E o \in {Ops[k] : k \in DOMAIN Ops} : \E sh \in Shapes(o.op), pa \in Left, pb \in Right(o.op), f \in Filters(o), off \in Offsets(o) :
         /\ (o.a \in {"Z", "ZR", "Y.Z"}) => pa = "some"
         /\ (o.b \in {"Z", "ZR", "Y.Z"}) => pb \in {"ramp", "none"}
         /\ case = [o |-> o, sh |-> sh, pa |-> pa, pb |-> pb, f |-> f, off |-> off]
\* a view is created on a matrix with a border of 9s around the window
Plain(t, x) == IF t = "I" THEN Build(x.r, x.c, LAMBDA i, j : Hi(x, i, j), LAMBDA i, j : 0) ELSE x
A == Plain(case.o.a, Content(case.pa, case.sh[1], case.sh[2]))
B == Plain(case.o.b, Content(case.pb, case.sh[3], case.sh[4]))
Framed(x) == Paste(Const(x.r + 3, x.c + 2, <<9, 0>>), 1, 1, x)
BaseTag(t) == IF t = "V" THEN "DC" ELSE "FC"
Put1(s, t, x) == IF t \in ViewTags THEN Make(s + 3, BaseTag(t), "", Framed(x)) ELSE Make(s, t, "", x)
Put2(s, t, x) == IF t \in ViewTags THEN MakeView(s, s + 3, 1, 1, x.r, x.c) ELSE UNCHANGED m
Op == case.o.op
Next ==
    /\ step < 5 /\ step' = step + 1 /\ UNCHANGED case
    /\ CASE step = 0 -> Put1(1, case.o.a, A)
         [] step = 1 -> Put2(1, case.o.a, A)
         [] step = 2 -> IF case.pb = "none" THEN UNCHANGED m ELSE Put1(2, case.o.b, B)
         [] step = 3 -> IF case.pb = "none" THEN UNCHANGED m ELSE Put2(2, case.o.b, B)
         [] step = 4 ->
              CASE Op \in {"add", "sub", "mul"} -> Binary(Op, 3, 1, 2, "DC", "", Exact(Op, V(1), V(2)))
                [] Op \in {"iadd", "isub"} -> IF case.o.a \in DenseTags
                      THEN LET x == Kept(case.o.a, Exact(IF Op = "iadd" THEN "add" ELSE "sub", V(1), V(2)))
                           IN Accumulate(IF Op = "iadd" THEN "add" ELSE "sub", 1, 2, x)
                      ELSE UNCHANGED m
                [] Op = "assign" -> Assign(1, 2, Kept(case.o.a, V(2)))
                [] Op \in {"conv", "filt"} -> Convert(3, 1, case.f, case.o.to, "", Kept(case.o.to, Filtered(V(1), case.f)))
                [] Op = "trans" -> Transpose(3, 1, case.o.a)
                [] Op = "q" -> Query
Spec == Init /\ [][Next]_<<m, case, step>>
TypeOK == \A s \in Slots : Live(s) => IsMatrix(V(s))
Done == step = 5
\* ---- laws of the specified operations
Laws == Done =>
    CASE Op = "add" -> Same(V(3), Plus(V(2), V(1))) /\ Same(Minus(V(3), V(2)), V(1))
      [] Op = "sub" -> Same(V(3), Negated(Minus(V(2), V(1)))) /\ Same(Plus(V(3), V(2)), V(1))
      [] Op = "mul" -> Same(Transposed(V(3)), Times(Transposed(V(2)), Transposed(V(1)))) /\ Same(Times(V(1), Plus(V(2), V(2))), Plus(V(3), V(3)))
      [] Op = "trans" -> Same(Transposed(V(3)), V(1))
      [] Op = "conv" -> Same(Kept(case.o.to, V(3)), V(3))
      [] Op = "filt" -> \A p \in DOMAIN V(3).hi : <<V(3).hi[p], V(3).lo[p]>> = <<0, 0>> \/ Passes(case.f, <<V(1).hi[p], V(1).lo[p]>>)
      [] Op = "q" -> LET x == V(1) IN
           /\ AbsSum(x) = AbsSum(Transposed(x)) /\ SquareSum(x) = SquareSum(Negated(x)) /\ MaxAbs(x) = MaxAbs(Transposed(x))
           /\ MaxAbs(x)[1] * MaxAbs(x)[1] <= SquareSum(x) /\ SquareSum(x) <= AbsSum(x)[1] * AbsSum(x)[1]
           /\ Millions(x)[1] * 1000000 + Millions(x)[2] = SquareSum(x)
           /\ CountPassing(x, case.f) <= x.r * x.c
      [] OTHER -> TRUE
\* nothing outside the window of a view is touched
FrameKept == Done => \A s \in {1, 2} : Live(s) /\ IsView(m[s]) =>
    LET b == V(m[s].base) IN \A i \in 0..(b.r - 1), j \in 0..(b.c - 1) : Inside(i, j, 1, 1, V(s)) \/ At(b, i, j) = <<9, 0>>
OperandsKept == [][step = 4 => (Op \in {"iadd", "isub", "assign"} \/ V(1)' = V(1)) /\ (case.pb # "none" => V(2)' = V(2))]_<<m, case, step>>
\* threshold of a comparison: next to the value it is compared with
Threshold == case.off + (CASE case.o.to \in {"larger", "smaller"} -> Root(SquareSum(A)) [] case.o.to \in {"occl", "occs"} -> CountPassing(A, case.f) [] OTHER -> 0)
Emit == Done => PrintT("@@" \o ToJson([o |-> case.o, a |-> A, b |-> IF case.pb = "none" THEN Zeros(0, 0) ELSE B, f |-> case.f, k |-> Threshold, two |-> case.pb # "none"]))
=============================================================================
