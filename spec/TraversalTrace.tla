----------------------------- MODULE TraversalTrace -----------------------------
(* Binds recorded walks of the real iterators and cursors to Traversal. *)
EXTENDS Traversal, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Shown == mem' = T.mem
Fresh0 == [k \in 1..N |-> k]
TMemory == Is("memory") /\ mem' = Fresh0 /\ obj' = NoObj /\ Fresh
TRange == Is("range") /\ Take(Range(T.start, T.cs, T.nb, T.sep))
TMatrix == Is("matrix") /\ Take(MatrixOn(T.start, T.r, T.c, T.row))
TWindow == Is("window") /\ Window(T.r0, T.c0, T.r, T.c)
TIt == Is("it") /\ Iterate(T.s, T.from)
TOuter == Is("outer") /\ PlaceOuter(T.s, T.dir, T.pos)
TInner == Is("inner") /\ PlaceInner(T.s, T.a, T.dir, T.from)
TCopy == Is("copy") /\ CopyPlace(T.s, T.a)
TNext == Is("next") /\ Forward(T.s)
TPrev == Is("prev") /\ Backward(T.s)
TIndex == Is("index") /\ at[T.s].k = "outer" /\ T.v = at[T.s].pos /\ UNCHANGED vars
TRead == Is("read") /\ Read(T.s) /\ T.off = Where(at[T.s]) /\ T.v = mem[T.off + 1]
TWrite == Is("write") /\ T.ok /\ Write(T.s, T.v)
TEq == Is("eq") /\ Comparable(at[T.a], at[T.b]) /\ (T.res <=> at[T.a].pos = at[T.b].pos) /\ UNCHANGED vars
\* the offsets a complete walk sees
TWalk == /\ Is("walk") /\ UNCHANGED vars
         /\ T.offs = [k \in 1..Size(obj) |-> Nth(obj, IF T.from = "begin" THEN k - 1 ELSE Size(obj) - k)]
TLoops == /\ Is("loops") /\ UNCHANGED vars
          /\ LET o == Outer(T.d1, 0) n == Length(o) IN
               /\ Cross(obj, T.d1, T.d2) /\ Len(T.lines) = n
               /\ \A i \in 1..n : LET p == Inner(T.d2, i - 1, 0) IN T.lines[i] = [k \in 1..Length(p) |-> Where([p EXCEPT !.pos = k - 1])]
TFill == Is("fill") /\ Fill(T.v)
TCopyIn == /\ Is("copyin") /\ UNCHANGED <<obj, at>>
           /\ mem' = [k \in 1..N |-> IF k - 1 \in Covered(obj)
                        THEN LET p == CHOOSE p \in (0..(obj.r - 1)) \X (0..(obj.c - 1)) : Address(obj, p[1], p[2]) = k - 1 IN T.v + p[1] + p[2] * obj.r
                        ELSE mem[k]]
TraceInit == TInit(Fresh0) /\ l = 1
TraceNext ==
    \/ Is("case") /\ mem' = Fresh0 /\ obj' = NoObj /\ Fresh
    \/ (TMemory \/ TRange \/ TMatrix \/ TWindow \/ TIt \/ TOuter \/ TInner \/ TCopy \/ TNext \/ TPrev \/ TIndex \/ TRead \/ TWrite \/ TEq \/ TWalk \/ TLoops \/ TFill \/ TCopyIn) /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
