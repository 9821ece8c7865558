------------------------------ MODULE MCEquality ------------------------------
(* Every pair of representations, every pair of small shapes, and at every
   position every class of difference: none, around either tolerance, large. *)
EXTENDS Equality, Json, TLC
CONSTANT Top
VARIABLE case
Dims == 0..Top
Matrices == {"DC", "DR", "FC", "FR", "I", "IR", "V", "W"}
Shape(t, r, c) == CASE t \in FixedSize -> r = 3 /\ c = 1 [] t \in Storages -> c = 1 [] OTHER -> TRUE
Plain(p) == <<2 * p - 3, 0, 0>>
Add(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
\* differences: around 1e-12, around 1e-4, one, and a mixed one
Deltas == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<0, 0, 2>>, <<0, 0, -2>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 2, 0>>, <<0, -2, 0>>,
           <<0, 1, 42842298>>, <<0, 1, 42842299>>, <<0, -1, -42842298>>, <<0, -1, -42842299>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<-2, 0, 0>>}
Contents(t, r, c) == IF t \in NoElements THEN <<>> ELSE [p \in 1..(r * c) |-> Plain(p)]
Op(t, r, c, e) == [t |-> t, r |-> r, c |-> c, e |-> e]
Kinds == Matrices \cup Storages \cup NoElements
\* shapes that differ, with the same contents in storage order
Init ==
    \/ \E s \in Kinds, t \in Kinds : /\ Comparable(s, t)
         /\ \E r \in Dims, c \in Dims, r2 \in Dims, c2 \in Dims :
              /\ Shape(s, r, c) /\ Shape(t, r2, c2) /\ <<r, c>> # <<r2, c2>>
              /\ case = [a |-> Op(s, r, c, Contents(s, r, c)), b |-> Op(t, r2, c2, Contents(t, r2, c2))]
    \/ \E s \in Kinds, t \in Kinds : /\ Comparable(s, t)
         /\ \E r \in Dims, c \in Dims : /\ Shape(s, r, c) /\ Shape(t, r, c)
              /\ \/ case = [a |-> Op(s, r, c, Contents(s, r, c)), b |-> Op(t, r, c, Contents(t, r, c))]
                 \/ /\ s \notin NoElements
                    /\ \E p \in 1..(r * c), d \in Deltas, side \in {"a", "b"} :
                         LET k == IF side = "a" THEN s ELSE t
                             e == [Contents(t, r, c) EXCEPT ![p] = Add(Plain(p), d)] IN
                         /\ Holds(k, e[p])
                         /\ case = (IF side = "a" THEN [a |-> Op(s, r, c, e), b |-> Op(t, r, c, Contents(t, r, c))]
                                                  ELSE [a |-> Op(s, r, c, Contents(s, r, c)), b |-> Op(t, r, c, e)])
                 \* equal in storage order, different as matrices: the transposed contents
                 \/ /\ s \notin NoElements /\ t \notin NoElements /\ r > 1 /\ c > 1
                    /\ case = [a |-> Op(s, r, c, Contents(s, r, c)),
                               b |-> Op(t, r, c, [p \in 1..(r * c) |-> Plain(((p - 1) % r) * c + ((p - 1) \div r) + 1)])]
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Sound == IsOperand(case.a) /\ IsOperand(case.b)
Symmetric == Equal(case.a, case.b) = Equal(case.b, case.a)
Reflexive == Equal(case.a, case.a)
ShapeLaw == Equal(case.a, case.b) => case.a.r = case.b.r /\ case.a.c = case.b.c
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
