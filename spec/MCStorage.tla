-------------------------------- MODULE MCStorage --------------------------------
(* All short histories over storages of one kind: some own their elements, some
   are proxies on overlapping memory of the caller. Every history is emitted. *)
EXTENDS Storage, Json, TLC
CONSTANTS Depth, Kinds
VARIABLES h, kind
mvars == <<slot, ext, h, kind>>
E(k) == IF k = "I" THEN 3 ELSE 1
Ramp(n, x) == [p \in 1..n |-> x + p]
Start(k) == CASE k = "K" -> [s \in Slots |-> IF s = "a" THEN Own("K", Ramp(Fixed, 10)) ELSE IF s = "b" THEN Own("K", Ramp(Fixed, 20)) ELSE None]
    [] k = "S" -> [s \in Slots |-> IF s = "a" THEN Proxy("S", 1, 1, 2, 3, 2) ELSE IF s = "b" THEN Proxy("S", 1, 0, 3, 1, 0) ELSE None]
    [] k = "F" -> [s \in Slots |-> IF s = "a" THEN Own("F", Ramp(Fixed, 10)) ELSE IF s = "b" THEN Proxy("F", 1, 2, Fixed, 1, 0) ELSE None]
    [] OTHER -> [s \in Slots |-> IF s = "a" THEN Own(k, Ramp(3, 10)) ELSE IF s = "b" THEN Proxy(k, E(k), 2, 2, 1, 0) ELSE None]
Init == \E k \in Kinds : kind = k /\ slot = Start(k) /\ ext = [e \in Arrays |-> [q \in 1..Room |-> (100 * e) + q]] /\ h = <<>>
Did(op, d, a, n) == h' = Append(h, [op |-> op, k |-> kind, d |-> d, a |-> a, n |-> n, x |-> Len(h) + 50])
Fresh == Len(h) + 50
Target(s) == slot[s].k = "none" /\ (s = "c" => \A q \in Slots \ {"c"} : slot[q].k # "none")
Next == Len(h) < Depth /\ UNCHANGED kind /\
    \/ \E d, a \in Slots : \/ Target(d) /\ Copy(d, a) /\ Did("copy", d, a, 0)
                           \/ Target(d) /\ Move(d, a) /\ Did("move", d, a, 0)
                           \/ Assign(d, a) /\ Did("assign", d, a, 0)
                           \/ MoveAssign(d, a) /\ Did("massign", d, a, 0)
                           \/ d = "a" /\ Swap(d, a) /\ Did("swap", d, a, 0)
                           \/ Target(d) /\ kind = "X" /\ Convert(d, "I", a, TRUE) /\ Did("convert I", d, a, 0)
                           \/ Target(d) /\ kind = "S" /\ Convert(d, "X", a, TRUE) /\ Did("convert X", d, a, 0)
                           \/ Len(h) = 0 /\ Reload(d, a) /\ Did("reload", d, a, 0)
    \/ \E d \in Slots : \/ \E n \in {0, 2, 3} : \E ok \in BOOLEAN : (Resize(d, n, ok) /\ Did("resize", d, "", n)) \/ (n # 3 /\ Shrink(d, n, ok) /\ Did("shrink", d, "", n))
                        \/ Fill(d, Fresh) /\ Did("fill", d, "", 0)
                        \/ Store(d, slot[d].n, Fresh) /\ Did("store", d, "", slot[d].n)
                        \/ Drop(d) /\ Did("drop", d, "", 0)
Spec == Init /\ [][Next]_mvars
Buffers == Needed <= Allowed
\* owned elements are changed only by steps that name the storage
OnlyNamed == [][LET e == h'[Len(h')] IN \A s \in Slots \ {e.d, e.a} : slot'[s] = slot[s]]_mvars
\* memory of the caller changes only where a proxy that was written covers it
OnlyCovered == [][LET e == h'[Len(h')] IN \A i \in Arrays, q \in 1..Room : ext'[i][q] # ext[i][q] =>
        slot[e.d].e = i /\ \E p \in 1..slot[e.d].n : Pos(slot[e.d], p) = q]_mvars
\* a copy shares nothing: after copying, writing to one leaves the other
Separate == [][LET e == h'[Len(h')] IN e.op = "copy" /\ kind # "S" => slot'[e.d].e = 0]_mvars
\* moving keeps the elements
Kept == [][LET e == h'[Len(h')] IN e.op \in {"move", "massign"} /\ e.d # e.a => Elements(slot'[e.d], ext') = Elements(slot[e.a], ext)]_mvars
Emit == Len(h) = Depth => PrintT("@@" \o ToJson(h))
=============================================================================
