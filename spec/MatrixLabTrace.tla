---------------------------- MODULE MatrixLabTrace ----------------------------
(* Binds recorded runs of the real library to MatrixLab: after every event the
   value of every slot, read through the public interface, is the one the
   specification says. Representations offer some operations only as "not
   implemented" (an error that changes nothing). *)
EXTENDS MatrixLab, Json, IOUtils, TLC
CONSTANTS Structure,      \* sparse matrices must be well formed
          Sizes,          \* reported element count must be rows * columns
          Memory          \* buffers must be sound
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Seen(s) == LET k == CHOOSE k \in DOMAIN T.all : T.all[k].s = s IN T.all[k]
SeenValue(s) == LET x == Seen(s) IN [r |-> x.r, c |-> x.c, hi |-> x.hi, lo |-> x.lo]
Has(s) == \E k \in DOMAIN T.all : T.all[k].s = s
\* ---- compressed storage
Monotone(off) == \A k \in 1..(Len(off) - 1) : off[k] <= off[k + 1]
WellFormed(x) ==
    LET minor == IF x.t \in {"SR", "GR"} THEN x.r ELSE x.c IN
    IF x.off = <<>> THEN x.r * x.c = 0 /\ x.nnz = 0
    ELSE /\ Len(x.off) = minor + 1 /\ x.off[1] = 0 /\ Monotone(x.off)
         /\ x.off[minor + 1] = x.nnz /\ Len(x.key) = x.nnz
         /\ \A k \in 1..minor : \A p \in (x.off[k] + 1)..x.off[k + 1] :
              /\ x.key[p] >= 0 /\ x.key[p] < x.major
              /\ p > x.off[k] + 1 => x.key[p - 1] < x.key[p]
\* ---- memory: every block belongs to exactly one matrix, views address the block of their matrix
Ids(q) == {q[k] : k \in DOMAIN q}
Owned ==
    LET own == {k \in DOMAIN T.all : T.all[k].t \notin ViewTags} IN
    /\ \A j, k \in own : j # k => Ids(T.all[j].blk) \cap Ids(T.all[k].blk) = {}
    /\ \A k \in own : Cardinality(Ids(T.all[k].blk)) = Len(T.all[k].blk) /\ Ids(T.all[k].blk) \cap Ids(T.rest) = {}
    /\ UNION {Ids(T.all[k].blk) : k \in own} \cup Ids(T.rest) = Ids(T.live)
    /\ \A k \in DOMAIN T.all \ own : LET x == T.all[k] v == m'[x.s] IN
         v.r * v.c # 0 => x.blk = Seen(v.base).blk /\ x.voff = v.r0 + v.c0 * m'[v.base].r
Shown ==
    /\ {T.all[k].s : k \in DOMAIN T.all} = {s \in Slots : m'[s].t \notin {"", "gone"}}
    /\ \A k \in DOMAIN T.all : LET x == T.all[k] IN
         /\ x.bad = FALSE
         /\ x.t = m'[x.s].t
         /\ x.t = "Y" => x.y = m'[x.s].y
         /\ Same(Value(m', x.s), [r |-> x.r, c |-> x.c, hi |-> x.hi, lo |-> x.lo])
         /\ Sizes => x.size = x.r * x.c
         /\ Structure /\ x.sp => WellFormed(x)
    /\ Memory => T.mem /\ Owned
\* ---- what is not implemented for a pair of representations
RawFixed == SparseTags \cup {"Z", "ZR"}                       \* these cannot be accumulated into
Unsupported(op, ta, tb) ==
    op \in {"iadd", "isub"} /\ ta \in RawFixed \cup {"MS", "MD"} /\ tb \notin {"Z", "ZR"}
Unary == {"trans"}
Filter(a) == IF Len(a) = 0 THEN [k |-> "all"]
    ELSE [k |-> a[1], lower |-> <<a[2], a[3]>>, upper |-> IF a[1] = "x" THEN <<-1, 0>> ELSE <<a[4], a[5]>>]
OpName(op) == IF op \in {"mul.native", "mul.openblas", "mul.eigen", "mul.blaze", "mul.best"} THEN "mul" ELSE op
Ok == T.out = "ok"
TMake == Is("make") /\ Make(T.d, IF T.dyn = "" THEN T.t ELSE "Y", T.dyn, [r |-> T.r, c |-> T.c, hi |-> T.hi, lo |-> T.lo])
TView == Is("view") /\ Ok /\ MakeView(T.d, T.b, T.r0, T.c0, T.r, T.c)
TDrop == Is("drop") /\ Drop(T.d)
TEnd == Is("end") /\ m' = [s \in Slots |-> Empty]
TSet == Is("set") /\ SetElement(T.d, T.i, T.j, <<T.hi, T.lo>>)
TBinary == \E op \in {"add", "sub", "mul"} :
    Is(op) /\ Ok /\ Has(T.d) /\ Binary(op, T.d, T.a, T.b, Seen(T.d).t, Seen(T.d).y, SeenValue(T.d))
TAccumulate == \E op \in {"add", "sub"} :
    Is("i" \o op) /\ Ok /\ Has(T.a) /\ Accumulate(op, T.a, T.b, SeenValue(T.a))
TConvert == Is("conv") /\ Ok /\ Has(T.d) /\ Convert(T.d, T.a, [k |-> "all"], T.to, "", SeenValue(T.d))
TFilter == Is("filt") /\ Ok /\ Has(T.d) /\ Convert(T.d, T.a, [k |-> T.kind, lower |-> T.low, upper |-> T.up], T.to, "", SeenValue(T.d))
TAssign == Is("assign") /\ Ok /\ Has(T.a) /\ Assign(T.a, T.b, SeenValue(T.a))
TTranspose == Is("trans") /\ Ok /\ Transpose(T.d, T.a, m[T.a].t)
TUnsupported == \E op \in {"iadd", "isub"} : Is(op) /\ T.out # "ok" /\ Unsupported(op, Tag(m[T.a]), Tag(m[T.b])) /\ UNCHANGED m
\* ---- life of the objects
TCopy == Is("copy") /\ Ok /\ CopyTo(T.d, T.a)
TMove == Is("move") /\ Ok /\ MoveTo(T.d, T.a)
TCopyAssign == Is("cassign") /\ Ok /\ CopyAssign(T.a, T.b)
TMoveAssign == Is("massign") /\ Ok /\ MoveAssign(T.a, T.b)
TSwap == Is("swap") /\ Ok /\ Swap(T.a, T.b)
TResize == Is("resize") /\ Ok /\ LET w == [r |-> T.r, c |-> T.c, hi |-> T.hi, lo |-> T.lo] IN
    IF m[T.d].t # "gone" /\ m[T.d].y = "ext" THEN ResizeExternal(T.d, w) ELSE Resize(T.d, w)
TFill == Is("fill") /\ FillWith(T.d, <<T.hi, T.lo>>)
TStore == Is("store") /\ SetElement(T.d, StorageElement(T.d, T.k)[1], StorageElement(T.d, T.k)[2], <<T.hi, T.lo>>)
TLife == TCopy \/ TMove \/ TCopyAssign \/ TMoveAssign \/ TSwap \/ TResize \/ TFill \/ TStore
\* ---- queries
F == [k |-> T.kind, lower |-> T.low, upper |-> T.up]
\* where the integer parts alone reach the threshold exactly, low parts decide
Border(x, k) == k >= 0 /\ SquareSum(x) = k * k /\ LowSquareSum(x) # 0
Answer(x) ==
    CASE T.to = "norm1" -> <<T.hi, T.lo>> = AbsSum(x)
      [] T.to = "normmax" -> <<T.hi, T.lo>> = MaxAbs(x)
      [] T.to \in {"norm2", "getnorm"} -> T.nonneg /\ T.near /\ <<T.mill, T.sq>> = Millions(x) /\ (T.mill = 0 /\ T.sq = 0 => T.low = LowSquareSum(x))
      [] T.to = "larger" -> Border(x, T.k) \/ (T.res <=> (T.k < 0 \/ SquareSum(x) > T.k * T.k))
      [] T.to = "smaller" -> Border(x, T.k) \/ (T.res <=> (T.k >= 0 /\ SquareSum(x) < T.k * T.k))
      [] T.to = "nsig" -> T.cnt = CountPassing(x, F)
      [] T.to = "occ" -> x.r * x.c = 0 \/ T.cnt = CountPassing(x, F)
      [] T.to = "occl" -> x.r * x.c = 0 \/ (T.res <=> CountPassing(x, F) > T.k)        \* threshold (k + 1/2) / size
      [] T.to = "occs" -> x.r * x.c = 0 \/ (T.res <=> CountPassing(x, F) <= T.k)
      [] T.to = "dims" -> T.r = x.r /\ T.c = x.c /\ T.size = x.r * x.c /\ (T.major >= 0 => {T.major, T.minor} = {x.r, x.c}
                          /\ (T.row => T.major = x.c) /\ (~T.row => T.major = x.r))
TQuery == Is("q") /\ Ok /\ Live(T.a) /\ Answer(V(T.a)) /\ Query
\* norms of integer matrices over the whole range of their elements; amounts as millions and rest
BigAmount(p) == <<AbsV(<<T.m[p], 0>>)[1], AbsV(<<T.t[p], 0>>)[1]>>
BigOne == LET n == Len(T.m) t == Sum(n, LAMBDA p : BigAmount(p)[2]) IN <<Sum(n, LAMBDA p : BigAmount(p)[1]) + (t \div 1000000), t % 1000000>>
IsBigMax(v) == /\ \A p \in DOMAIN T.m : ~Less(v, BigAmount(p))
               /\ IF T.m = <<>> THEN v = <<0, 0>> ELSE \E p \in DOMAIN T.m : v = BigAmount(p)
IsBigTwo(v) == /\ ~Less(v, T.max) /\ ~Less(T.one, v)
               /\ Less(T.max, T.one) /\ T.max[1] > 0 => Less(v, T.one)
TBigNorm == Is("bignorm") /\ Ok /\ T.one = BigOne /\ IsBigMax(T.max) /\ IsBigTwo(T.two) /\ T.get = T.two /\ Query
\* comparison of dimensions
TDimEq == Is("dimeq") /\ Ok /\ (T.res <=> SameShape(V(T.a), V(T.b))) /\ Query
\* ---- preconditions
TExternal == Is("ext") /\ MakeExternal(T.d, [r |-> T.r, c |-> T.c, hi |-> T.hi, lo |-> T.lo])
TDiagonal == Is("diag") /\ Ok /\ FillDiagonal(T.a, <<T.hi, T.lo>>)
TPair == (Is("pair") \/ Is("preset")) /\ Ok /\ Pair(T.d, T.t, T.r1, T.c1, T.r2, T.c2)
TLiteral == Is("literal") /\ Ok /\ Literal(T.d, T.t, T.rows)
TAccepted == TExternal \/ TDiagonal \/ TPair \/ TLiteral
TRejected ==
    /\ \/ \E op \in {"add", "sub", "mul"} : Is(op) /\ ~Conforming(op, V(T.a), V(T.b))
       \/ \E op \in {"add", "sub"} : Is("i" \o op) /\ ~Conforming(op, V(T.a), V(T.b))
       \/ Is("view") /\ ~InsideOf(T.b, T.r0, T.c0, T.r, T.c)
       \/ Is("resize") /\ Live(T.d) /\ ~CanTake(T.d, T.r, T.c)
       \/ Is("assign") /\ ~CanTake(T.a, V(T.b).r, V(T.b).c)
       \/ Is("diag") /\ V(T.a).r # V(T.a).c
       \/ (Is("pair") \/ Is("preset")) /\ <<T.r1, T.c1>> # <<T.r2, T.c2>>
       \/ Is("literal") /\ ~Rectangular(T.rows)
    /\ T.out # "ok" /\ UNCHANGED m
\* memory ran out during an operation: it has not happened
TFailed == /\ l <= Len(Trace) /\ l' = l + 1 /\ T.ev \notin {"case", "massign", "swap"}
           /\ "out" \in DOMAIN T /\ T.out = "memory" /\ UNCHANGED m
TraceInit == LInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ m' = [s \in Slots |-> Empty]
    \/ (TMake \/ TEnd \/ TView \/ TDrop \/ TSet \/ TBinary \/ TAccumulate \/ TConvert \/ TFilter \/ TAssign \/ TTranspose \/ TUnsupported \/ TAccepted \/ TRejected \/ TLife \/ TQuery \/ TBigNorm \/ TDimEq \/ TFailed) /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<m, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
