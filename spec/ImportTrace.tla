------------------------------- MODULE ImportTrace -------------------------------
(* Binds recorded imports to Import. *)
EXTENDS Import, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Same(x, m) == x.whole /\ x.r = m.r /\ x.c = m.c /\ x.e = m.e
Shown ==
    /\ T.files /\ T.sound
    /\ {T.slots[k].s : k \in DOMAIN T.slots} = {s \in Slots : slot'[s] # NoMatrix}
    /\ \A k \in DOMAIN T.slots : Same(T.slots[k].m, slot'[T.slots[k].s])
TMake == Is("make") /\ Make(T.s, Ramp(T.r, T.c, T.v)) /\ Shown
TData == Is("data") /\ Put(T.f, Data(T.n)) /\ Shown
THollow == Is("hollow") /\ Put(T.f, Hollow(T.n, T.ranges)) /\ Shown
TDesc == Is("descriptor") /\ Put(T.f, Desc("descriptor", T.data, T.flaw, T.v, T.is)) /\ Shown
TList == Is("list") /\ Put(T.f, Desc("list", T.data, T.flaw, T.v, T.is)) /\ Shown
TRemove == Is("remove") /\ Remove(T.f) /\ Shown
Fits2(how, f) == IF Known(f) THEN files[f].k \in {"descriptor", "list"} => (how = "text") = (files[f].k = "list") ELSE TRUE
TImport == Is("import") /\ ~Undecided(T.f) /\ Fits2(T.how, T.f) /\ Import(T.s, T.f, T.err = "") /\ Shown
TOpen == /\ Is("import") /\ Undecided(T.f) /\ UNCHANGED <<files, sets>>         \* the slot shows no elements that were never written
         /\ \A k \in DOMAIN T.slots : T.slots[k].m.whole
         /\ slot' = [s \in Slots |-> IF slot[s] = NoMatrix THEN NoMatrix ELSE LET x == (CHOOSE k \in DOMAIN T.slots : T.slots[k].s = s) IN Mat(T.slots[x].m.r, T.slots[x].m.c, T.slots[x].m.e)]
         /\ T.err # "" => slot' = slot
         /\ slot'[T.s] # slot[T.s] => slot'[T.s].e = <<>>
         /\ \A s \in Slots \ {T.s} : slot'[s] = slot[s]
TProvide == Is("provide") /\ Provide(T.entries, T.err = "") /\ Shown
TGet == /\ Is("get") /\ Get(T.name, T.err = "") /\ Shown
        /\ T.err = "" => Len(T.list) = Len(sets[T.name]) /\ \A k \in DOMAIN T.list : Same(T.list[k], sets[T.name][k])
TraceInit == IInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ files' = <<>> /\ slot' = [s \in Slots |-> NoMatrix] /\ sets' = <<>>
    \/ TMake \/ TData \/ THollow \/ TDesc \/ TList \/ TRemove \/ TImport \/ TOpen \/ TProvide \/ TGet
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
