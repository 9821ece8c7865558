-------------------------------- MODULE FillTrace --------------------------------
(* Binds recorded fills to Fill. *)
EXTENDS Fill, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Same(x, m) == /\ x.whole /\ x.kind = m.kind /\ x.r = m.r /\ x.c = m.c /\ x.e = m.e
Shown ==
    /\ T.sound
    /\ {T.slots[k].s : k \in DOMAIN T.slots} = {s \in Slots : slot'[s].kind # "none"}
    /\ \A k \in DOMAIN T.slots : Same(T.slots[k].m, slot'[T.slots[k].s])
F == Filler(T.f, T.v)
Ok == T.err = ""
TNew == (Is("new") \/ Is("resize")) /\ (T.ev = "resize" => slot[T.s].kind = T.kind /\ Square(F, T.r, T.c)) /\ (Sparse(T.kind) => T.ev = "new" /\ T.f = "increasing") /\ New(T.s, T.kind, T.r, T.c, F, T.room, Ok) /\ Shown
TApply == Is("fill") /\ Apply(T.s, F, Ok) /\ Shown
TLarge == Is("large") /\ Large(T.kind, T.r, T.c, F, T.some, Ok) /\ (Ok => T.gr = T.r /\ T.gc = T.c /\ T.n = T.r * T.c /\ Len(T.some) = T.asked) /\ Shown
TPart == Is("part") /\ Part(T.s, F, [r0 |-> T.r0, c0 |-> T.c0, r |-> T.r, c |-> T.c], Ok) /\ Shown
TGenerate == Is("generate") /\ T.r = T.gr /\ T.c = T.gc /\ Generate(Recipe(T.r, T.c, T.seed, T.lo, T.hi), T.x) /\ Shown
TraceInit == FInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ slot' = [s \in Slots |-> NoMatrix] /\ made' = <<>>
    \/ TNew \/ TLarge \/ TApply \/ TPart \/ TGenerate
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
