-------------------------------- MODULE StorageTrace --------------------------------
(* Binds recorded histories of storages to Storage. *)
EXTENDS Storage, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
SlotsNow == {s \in Slots : slot'[s].k \in {"K", "F", "X", "I", "M", "S"}}
Shown ==
    /\ T.sound
    /\ \A e \in Arrays : Agree(ext'[e], T.ext[e])
    /\ SlotsNow \subseteq {T.slots[k].s : k \in DOMAIN T.slots}
    /\ \A k \in DOMAIN T.slots : LET x == T.slots[k] y == slot'[x.s] IN
        /\ y.k # "none"
        /\ x.s \in SlotsNow => /\ x.k = y.k /\ x.n = y.n /\ Agree(Elements(y, ext'), x.v)
                               /\ y.n > 0 => x.e = y.e /\ (y.e # 0 => x.off = y.off)
    /\ T.live >= Needed' /\ T.live <= Allowed'
TNew == Is("new") /\ New(T.d, T.k, T.n) /\ T.ok
TList == Is("list") /\ FromList(T.d, T.k, T.w, T.ok)
TOver == Is("over") /\ Over(T.d, T.k, T.e, T.off, T.n) /\ T.ok
TStrided == Is("strided") /\ Strided(T.d, T.e, T.off, T.cs, T.nb, T.sep) /\ T.ok
TCopy == Is("copy") /\ Copy(T.d, T.a) /\ T.ok
TConvert == Is("convert") /\ Convert(T.d, T.k, T.a, T.ok)
TMove == Is("move") /\ Move(T.d, T.a) /\ T.ok
TAssign == Is("assign") /\ Assign(T.d, T.a) /\ T.ok
TMoveAssign == Is("massign") /\ MoveAssign(T.d, T.a) /\ T.ok
TSwap == Is("swap") /\ Swap(T.d, T.a) /\ T.ok
TResize == Is("resize") /\ Resize(T.d, T.n, T.ok)
TShrink == Is("shrink") /\ Shrink(T.d, T.n, T.ok)
TFill == Is("fill") /\ Fill(T.d, T.x) /\ T.ok
TStore == Is("store") /\ Store(T.d, T.p, T.x) /\ T.ok
TDrop == Is("drop") /\ Drop(T.d) /\ T.ok
TCompare == Is("compare") /\ Compare(T.d, T.a, T.r) /\ T.ok
TIdentical == Is("identical") /\ Identical(T.d, T.a, T.r) /\ T.ok
TReload == Is("reload") /\ Reload(T.d, T.a) /\ T.ok
TVisit == Is("visit") /\ Visit(T.d, T.f, T.g) /\ T.ok
\* memory ran out: the operation has not happened
TFailed == /\ l <= Len(Trace) /\ l' = l + 1 /\ T.ev \in {"new", "list", "over", "strided", "copy", "convert", "move", "assign", "resize"}
           /\ T.memory /\ ~T.ok /\ UNCHANGED svars
TraceInit == SInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ slot' = [s \in Slots |-> None] /\ ext' = [e \in Arrays |-> [q \in 1..Room |-> (100 * e) + q]]
    \/ (TNew \/ TList \/ TOver \/ TStrided \/ TCopy \/ TConvert \/ TMove \/ TAssign \/ TMoveAssign \/ TSwap \/ TResize \/ TShrink
        \/ TFill \/ TStore \/ TDrop \/ TCompare \/ TIdentical \/ TReload \/ TVisit \/ TFailed) /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
