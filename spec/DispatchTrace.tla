--------------------------- MODULE DispatchTrace ---------------------------
(* Every recorded dispatch is explained by a complete run of the scan:      *)
(* Start and the steps up to its end are composed into one trace step whose *)
(* outcome is the one the invariant Finished proves for the scan.           *)
EXTENDS Dispatch, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
TraceInit == Start(<<0>>, 1, {}, {}) /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Complete(ts, d, w1, w2, outcome) ==
    /\ types' = ts /\ dims' = d /\ want1' = w1 /\ want2' = w2 /\ pos' = Len(ts)
    /\ found' = IF outcome = <<>> THEN <<>> ELSE outcome[1]
    /\ ran' = outcome /\ result' = IF outcome = <<>> THEN "error" ELSE "done"
\* what the driver saw
Ran1 == [i \in DOMAIN T.ran |-> <<T.ran[i].a>>]
Ran2 == [i \in DOMAIN T.ran |-> <<T.ran[i].a, T.ran[i].b>>]
Objects(oa, ob) == \A i \in DOMAIN T.ran : T.ran[i].oa = oa /\ T.ran[i].ob = ob
TraceNext ==
    \/ Is("case") /\ UNCHANGED dvars
    \/ /\ Is("list") /\ UNCHANGED dvars
       /\ T.at = T.types /\ T.size = Len(T.types)
       /\ \A x \in 0..5 : T.idx[x + 1] = IndexOf(T.types, x)
    \/ /\ Is("if1")
       /\ Complete(T.types, 1, Range(T.m), {}, Outcome1(T.types, Range(T.m)))
       /\ Ran1 = ran' /\ Objects(T.salt, -1) /\ T.err = (result' = "error")
       /\ ~T.err => T.ret = T.salt * 10 + found'[1]
    \/ /\ Is("chk")
       /\ Complete(T.types, 1, {T.x}, {}, Outcome1(T.types, {T.x}))
       /\ Ran1 = ran' /\ T.err = (result' = "error") /\ (~T.err => T.ret = 30 + found'[1])
    \/ /\ Is("if2")
       /\ Complete(T.types, 2, Range(T.m), Range(T.m2), Outcome2(T.types, Range(T.m), Range(T.m2)))
       /\ Ran2 = ran' /\ Objects(T.salt, -1) /\ T.err = (result' = "error")
       /\ ~T.err => T.ret = T.salt * 100 + found'[1] * 10 + found'[2]
    \/ /\ Is("dyn1")
       /\ LET x == T.types[T.p + 1] IN
          /\ Complete(T.types, 1, {x}, {}, Outcome1(T.types, {x}))
          /\ Ran1 = ran' /\ Objects(T.u, -1) /\ T.ret = 1000 + 10 * T.u + x
    \/ /\ Is("dyn2")
       /\ LET x == T.types[T.p + 1] y == T.types[T.q + 1] IN
          /\ Complete(T.types, 2, {x}, {y}, Outcome2(T.types, {x}, {y}))
          /\ Ran2 = ran' /\ Objects(T.u, T.v) /\ T.ret = 1000 + 100 * T.u + 10 * x + y + 7 * T.v
    \/ /\ Is("real") /\ UNCHANGED dvars    \* the library's own type list
       /\ T.index = T.pos /\ T.rows = T.r /\ T.cols = T.c /\ T.size = T.r * T.c
       /\ T.ran = <<T.pos, T.pos>> /\ T.same = 1
    \/ /\ Is("real2") /\ UNCHANGED dvars
       /\ T.ran = <<T.p, T.q, T.p, T.q>> /\ T.same = 1
TraceSpec == TraceInit /\ [][TraceNext]_<<dvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
===========================================================================
