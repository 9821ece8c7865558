---------------------------- MODULE TrackerTrace ----------------------------
EXTENDS Tracker, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
TraceInit == Init /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Range(s) == {s[i] : i \in DOMAIN s}
\* the register shown after the event
Shown == /\ \A i \in Ids : T.count[i + 1] = count'[i] /\ T.time[i + 1] = total'[i]
\* real operation -> the identities it completes
Real == [GeneralDense_dd |-> 16, GeneralDense_ff |-> 16, GeneralDense_df |-> 16, sparse |-> 17, sparse_dense |-> 18, dense_sparse |-> 19,
         dense_zero |-> 20, sparse_zero |-> 20, zero_dense |-> 21, zero_sparse |-> 21, zero_zero |-> 22,
         openblas_d |-> 0, openblas_s |-> 1, mkl_d |-> 2, mkl_s |-> 3, mkl_sd_d |-> 4, mkl_sd_s |-> 5, eigen_d |-> 8, eigen_s |-> 9,
         detect |-> 23, block |-> 24]
TraceNext ==
    \/ Is("case") /\ now' = TZero /\ running' = <<>> /\ count' = [i \in Ids |-> 0] /\ total' = [i \in Ids |-> TZero]
    \/ Is("boot") /\ UNCHANGED tvars /\ Shown
    \/ Is("begin") /\ Begin(T.h, T.id) /\ Shown
    \/ Is("advance") /\ Advance(T.d) /\ Shown
    \/ Is("complete") /\ Complete(T.h) /\ Shown      \* left normally or by an exception
    \/ /\ Is("report") /\ UNCHANGED tvars /\ Shown
       /\ Len(T.lines) = Cardinality(Report)
       /\ {<<T.lines[k].id, T.lines[k].count, T.lines[k].time>> : k \in DOMAIN T.lines} = Report
       /\ T.other = 0
    \/ Is("real") /\ Instant(Real[T.op], 1) /\ Shown
    \/ Is("blocks") /\ LET a == IF T.r <= T.max /\ T.c <= T.max THEN 0 ELSE 1 IN
          /\ count' = [count EXCEPT ![23] = @ + a, ![24] = @ + 2 * a] /\ UNCHANGED <<now, running, total>> /\ Shown
    \/ Is("timed") /\ LET d == T.d IN     \* a real operation whose kernel takes time d
          /\ now' = TAdd(now, d)
          /\ count' = [count EXCEPT ![Real[T.op]] = @ + 1]
          /\ total' = [total EXCEPT ![Real[T.op]] = TAdd(@, d)]
          /\ UNCHANGED running /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
CountsNatural == \A i \in Ids : count[i] >= 0 /\ total[i][1] >= 0
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
