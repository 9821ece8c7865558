---------------------------- MODULE ThresholdsTrace ----------------------------
EXTENDS Thresholds, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
None == [s \in Slots |-> <<>>]
TraceInit == thr = None /\ l = 1
\* every query of every object, after the event
Shown == \A s \in Slots : LET a == T.all[s + 1] IN
    IF thr'[s] = <<>> THEN a = <<>>
    ELSE /\ Len(a) = Cardinality(Queries)
         /\ {<<a[i].q, a[i].m, a[i].t>> : i \in DOMAIN a} = Queries
         /\ \A i \in DOMAIN a : a[i].v = thr'[s][KeyOf(<<a[i].q, a[i].m, a[i].t>>)]
TraceNext ==
    \/ Is("case") /\ thr' = None
    \/ Is("make") /\ DOMAIN T.given = Keys /\ Make(T.s, T.given) /\ Shown
    \/ Is("copy") /\ Copy(T.s, T.d) /\ Shown
    \/ Is("assign") /\ Copy(T.s, T.d) /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<thr, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
