------------------------------ MODULE ToolsTrace ------------------------------
EXTENDS Tools, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<file, l>>
TraceInit == TInit /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
T == Trace[l]
Seen(n) == CHOOSE x \in {T.files[k] : k \in DOMAIN T.files} : x.f = n
Agrees == \A n \in Names : file'[n] = IF \E k \in DOMAIN T.files : T.files[k].f = n THEN [here |-> TRUE, hi |-> Seen(n).hi, lo |-> Seen(n).lo] ELSE Nothing
TCase == Is("case") /\ file' = [f \in Names |-> Nothing]
TPut == Is("put") /\ Put_(T.f, T.hi, T.lo)
TGenerate == Is("generate") /\ Generate(T.f, T.r, T.c, T.b, T.v, T.how) /\ T.status = Status(T.how)
TShow == Is("show") /\ Show(T, T.status, T.here, T.image)
TBench == Is("bench") /\ Bench(T, T.status, T.rows, T.diffs)
TraceNext == TCase \/ ((TPut \/ TGenerate \/ TShow \/ TBench) /\ Agrees)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
===========================================================================
