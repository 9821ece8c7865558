-------------------------------- MODULE MCLife --------------------------------
(* All short histories of copying, moving, swapping, assigning, resizing,
   viewing, writing and dropping over a few matrices of one representation.
   Checked: views stay inside live matrices, no two slots share contents, what
   was moved away is not looked at. Every history is emitted for execution. *)
EXTENDS MatrixLab, Json, TLC
CONSTANTS Depth, Views
VARIABLES h
Type1 == "DC"
Ramp(r, c, k) == Build(r, c, LAMBDA i, j : k + i + 2 * j, LAMBDA i, j : 0)
Start == <<Ramp(2, 3, 1), Ramp(1, 2, 10)>>
Init == /\ m = [s \in Slots |-> IF s <= 2 THEN Own(Type1, "", Start[s]) ELSE Empty] /\ h = <<>>
Shapes == {<<2, 3>>, <<3, 1>>, <<0, 2>>}
New == Len(h) + 30                                \* values written by the next step
Did(op, d, a, b, r, c) == h' = Append(h, [op |-> op, d |-> d, a |-> a, b |-> b, r |-> r, c |-> c, n |-> New])
HasElement(s) == Live(s) /\ V(s).r * V(s).c > 0
\* the free slot with the smallest number, or an occupied one
Targets == {s \in Slots : Free(s) /\ (Live(s) \/ m[s].t = "gone" \/ \A q \in Slots : q < s => m[q].t # "")}
Next == Len(h) < Depth /\
    \/ \E d \in Targets, a \in Slots : (CopyTo(d, a) /\ Did("copy", d, a, 0, 0, 0)) \/ (MoveTo(d, a) /\ Did("move", d, a, 0, 0, 0))
    \/ \E a, b \in Slots : \/ CopyAssign(a, b) /\ Did("cassign", 0, a, b, 0, 0)
                           \/ MoveAssign(a, b) /\ Did("massign", 0, a, b, 0, 0)
                           \/ a <= b /\ Swap(a, b) /\ Did("swap", 0, a, b, 0, 0)
    \/ \E a \in Slots, sh \in Shapes : Resize(a, Const(sh[1], sh[2], <<New, 0>>)) /\ Did("resize", a, 0, 0, sh[1], sh[2])
    \/ \E a \in Slots : \/ FillWith(a, <<New, 0>>) /\ Did("fill", a, 0, 0, 0, 0)
                        \/ HasElement(a) /\ LET e == StorageElement(a, V(a).r * V(a).c - 1) IN SetElement(a, e[1], e[2], <<New, 0>>) /\ Did("store", a, 0, 0, V(a).r * V(a).c - 1, 0)
                        \/ m[a].t # "" /\ Drop(a) /\ Did("drop", a, 0, 0, 0, 0)
    \/ Views /\ \E d \in Targets, b \in Slots : HasElement(b) /\ V(b).c > 1
            /\ MakeView(d, b, 0, 1, V(b).r, V(b).c - 1) /\ Did("view", d, b, 0, V(b).r, V(b).c - 1)
Spec == Init /\ [][Next]_<<m, h>>
ViewsInside == \A s \in Slots : Live(s) /\ IsView(m[s]) => Live(m[s].base) /\ ~IsView(m[m[s].base])
    /\ m[s].r0 + m[s].r <= m[m[s].base].r /\ m[s].c0 + m[s].c <= m[m[s].base].c
WellTyped == \A s \in Slots : Live(s) => IsMatrix(V(s))
\* a step changes only the slots it names, except through views
Frame == [][LET e == h'[Len(h')] IN \A s \in Slots : (s \notin {e.d, e.a, e.b} /\ Live(s) /\ ~IsView(m[s])
        /\ \A q \in {e.d, e.a, e.b} : q \in Slots => ~(IsView(m[q]) /\ m[q].base = s)) => m'[s] = m[s]]_<<m, h>>
\* moving and swapping never loses contents
Contents(mm) == {Value(mm, s) : s \in {q \in Slots : mm[q].t \notin {"", "gone"} /\ mm[q].t \notin ViewTags}}
Moves == [][LET e == h'[Len(h')] IN e.op \in {"swap"} => Contents(m') = Contents(m)]_<<m, h>>
Emit == Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
