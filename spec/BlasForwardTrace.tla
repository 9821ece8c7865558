------------------------- MODULE BlasForwardTrace -------------------------
EXTENDS BlasForward, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<bvars, l>>
TraceInit == BInit /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
T == Trace[l]
Obs == [i \in DOMAIN T.log |-> [sym |-> T.log[i].sym, seen |-> T.log[i].seen]]
TraceNext ==
    \/ Is("case") /\ boundary' = <<>>
    \/ /\ Is("call") /\ Call(T.backend, T.f, T.vals)
       /\ Obs = boundary'
       /\ T.post = After(T.f, T.vals)
       /\ T.ret = Returned(T.f) /\ T.ret2 = (IF Fn(T.f).ret \in {"c", "z"} THEN -Returned(T.f) ELSE 0)
       /\ T.name = T.f
    \/ Is("threads") /\ SetThreads(T.backend, T.k) /\ Obs = boundary'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
===========================================================================
