------------------------------- MODULE RenderTrace -------------------------------
(* Binds recorded output to Render. *)
EXTENDS Render, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Parts(x) == [k \in DOMAIN x |-> Part(x[k].k, x[k].r, x[k].c, x[k].e)]
TMake == Is("make") /\ Make(T.s, Parts(T.parts)) /\ T.sound
TSet == Is("set") /\ Set(T.s, T.k, T.p, T.v) /\ T.sound
TMode == Is("mode") /\ Mode(T.x, T.on) /\ T.sound
TPrint == Is("print") /\ T.sound /\ T.err = "" /\ Print(T.x, T.s, T.names, T.lines)
TPattern == Is("pattern") /\ T.sound /\ (IF T.place THEN T.err = "" /\ Pattern(T.s, T.pal, T.bg, T.bgc, T.image) ELSE T.err # "" /\ NoPlace(T.s))
TraceInit == RInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ slot' = [s \in Slots |-> Empty] /\ full' = [x \in Streams |-> FALSE]
    \/ TMake \/ TSet \/ TMode \/ TPrint \/ TPattern
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
