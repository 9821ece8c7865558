--------------------------- MODULE BlockSizeTrace ---------------------------
EXTENDS BlockSize, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
TraceInit == Start(<<>>, 0, 1) /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
\* one complete search: from Start to Stop with the reported sizes
Found(d, mn, mx, s) == /\ IsResult(d, mn, mx, s)
                       /\ detect' = d /\ min' = mn /\ max' = mx /\ borders' = BordersOf(s) /\ phase' = "done"
\* operator(): a matrix that fits in both directions is not split at all
Fits(mx) == T.r <= mx /\ T.c <= mx
ResultIs(n, d, s) == IsResultOf(n, d, T.min, T.max, s)
FoundFor(n, d, s) == IF n = 0 THEN s = <<0>> /\ UNCHANGED bvars ELSE Found(d, T.min, T.max, s)
TraceNext ==
    \/ Is("case") /\ UNCHANGED bvars
    \/ Is("ctor") /\ T.err = (2 * T.min > T.max) /\ UNCHANGED bvars
    \/ Is("size") /\ T.same /\ Found(T.detect, T.min, T.max, T.sizes)
    \/ Is("detect") /\ T.same /\ T.row = RowDetect(T.e, T.r, T.c) /\ T.col = ColDetect(T.e, T.r, T.c) /\ UNCHANGED bvars
    \/ /\ Is("matrix") /\ T.same
       /\ IF Fits(T.max) THEN T.rows = <<T.r>> /\ T.cols = <<T.c>> /\ UNCHANGED bvars
          ELSE FoundFor(T.r, RowDetect(T.e, T.r, T.c), T.rows) /\ ResultIs(T.c, ColDetect(T.e, T.r, T.c), T.cols)
    \* operands that do not match are refused and left alone, all others accepted
    \/ Is("refused") /\ T.same /\ T.c # T.r2 /\ UNCHANGED bvars
    \/ /\ Is("mult") /\ T.same /\ T.c = T.r2
       /\ FoundFor(T.c, PlusD(ColDetect(T.e, T.r, T.c), RowDetect(T.f, T.r2, T.c2)), T.inner)
       /\ ResultIs(T.r, RowDetect(T.e, T.r, T.c), T.rows) /\ ResultIs(T.c2, ColDetect(T.f, T.r2, T.c2), T.cols)
TraceSpec == TraceInit /\ [][TraceNext]_<<bvars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
==============================================================================
