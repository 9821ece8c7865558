------------------------ MODULE ValueCheckerTrace ------------------------
EXTENDS ValueChecker, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<fvars, l>>
TraceInit == FInit /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
T == Trace[l]
TraceNext ==
    \/ Is("case") /\ filter' = [s \in Slot |-> NoFilter] /\ order' = {} /\ seen' = {} /\ keyed' = <<>>
    \/ Is("make") /\ Make(T.s, T.k, T.tt, T.lo, T.hi) /\ T.out = MakeResult(T.k, T.lo, T.hi)
    \/ Is("test") /\ Test(T.s, T.v) /\ T.r = TestResult(T.s, T.v)
    \/ Is("less") /\ Compare(T.a, T.b, T.r) /\ T.r2 = T.r
    \/ Is("put") /\ Put(T.s, T.v) /\ T.n = Cardinality(DOMAIN keyed')
    \/ Is("get") /\ Get(T.s) /\ T.v = GetResult(T.s) /\ T.n = Cardinality(DOMAIN keyed)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
===========================================================================
