------------------------------ MODULE BlocksTrace ------------------------------
(* Binds recorded runs of the real library to Blocks. *)
EXTENDS Blocks, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Ok == T.out = "ok"
Seen(s) == LET k == CHOOSE k \in DOMAIN T.all : T.all[k].s = s IN T.all[k]
Has(s) == \E k \in DOMAIN T.all : T.all[k].s = s
BlocksOf(x) == [p \in DOMAIN x.blocks |-> [y |-> x.blocks[p].y, r |-> x.blocks[p].r, c |-> x.blocks[p].c, hi |-> x.blocks[p].hi, lo |-> x.blocks[p].lo]]
ShownGrid(x, g) == /\ x.r = Total(g.rows) /\ x.c = Total(g.cols) /\ x.br = Len(g.rows) /\ x.bc = Len(g.cols)
                   /\ BlocksOf(x) = g.blk
Shown ==
    /\ {T.all[k].s : k \in DOMAIN T.all} = {s \in Slots : m'[s].t \notin {"", "gone"}}
    /\ \A k \in DOMAIN T.all : LET x == T.all[k] g == m'[x.s] IN
         /\ x.bad = FALSE /\ x.t = g.t
         /\ IF x.t = "B" THEN ShownGrid(x, g)
            ELSE /\ x.t = "Y" => x.y = g.y
                 /\ Same(ValueOf(g), ValueOf(x)) /\ x.size = x.r * x.c
Th == T.th
TMake == Is("make") /\ Make(T.d, IF T.dyn = "" THEN T.t ELSE "Y", T.dyn, [r |-> T.r, c |-> T.c, hi |-> T.hi, lo |-> T.lo])
TView == Is("view") /\ Ok /\ MakeView(T.d, T.b, T.r0, T.c0, T.r, T.c)
TDrop == Is("drop") /\ Drop(T.d)
TAdapt == Is("adapt") /\ IF CanAdapt(Th, V(T.a)) THEN Ok /\ Adapt(T.d, T.a, Th) ELSE T.out = "rejected" /\ UNCHANGED m
TBlock == Is("block") /\
    IF ~Partition(T.rows, V(T.a).r) \/ ~Partition(T.cols, V(T.a).c) THEN T.out # "ok" /\ UNCHANGED m ELSE
    IF CanBlock(Th, V(T.a), T.rows, T.cols) THEN Ok /\ BlockUp(T.d, T.a, T.rows, T.cols, Th) ELSE T.out = "rejected" /\ UNCHANGED m
TGrid == Is("grid") /\ IF CanCompose(T.rows, T.cols, T.from) THEN Ok /\ Compose(T.d, T.rows, T.cols, T.from) ELSE T.out # "ok" /\ UNCHANGED m
TPut == Is("put") /\ PutBlock(T.d, T.i, T.j, T.a)
TConv == Is("conv") /\ Ok /\ IF m[T.a].t = "B" THEN Reassemble(T.d, T.a, T.to) ELSE Expand(T.d, T.a)
TCopy == Is("copy") /\ Ok /\ CopyTo(T.d, T.a)
TMove == Is("move") /\ Ok /\ MoveTo(T.d, T.a)
TCopyAssign == Is("cassign") /\ Ok /\ CopyAssign(T.a, T.b)
TMoveAssign == Is("massign") /\ Ok /\ MoveAssign(T.a, T.b)
TSwap == Is("swap") /\ Ok /\ Swap(T.a, T.b)
TMultiply == Is("mul") /\ IF m[T.a].cols = m[T.b].rows THEN Ok /\ Multiply(T.d, T.a, T.b, BlocksOf(Seen(T.d))) ELSE T.out = "rejected" /\ UNCHANGED m
Squares(g) == [p \in DOMAIN g.blk |-> SquareSum(g.blk[p])]
TStat == /\ Is("stat") /\ Ok /\ UNCHANGED m
         /\ LET g == m[T.a] br == Len(g.rows) bc == Len(g.cols) IN
              /\ T.shape = <<br, bc, br, bc, br, bc>>
              /\ T.types = TypeMap(g) /\ T.counts = Counts(g)
              /\ T.dr = [p \in DOMAIN g.blk |-> g.blk[p].r] /\ T.dc = [p \in DOMAIN g.blk |-> g.blk[p].c]
              /\ T.near /\ T.sq = Squares(g)
              /\ \A p \in DOMAIN g.blk : T.sq[p] = 0 => T.low[p] = LowSquareSum(g.blk[p])
\* memory ran out during an operation: it has not happened
TFailed == /\ l <= Len(Trace) /\ l' = l + 1 /\ T.ev \notin {"case", "massign", "swap"}
           /\ "out" \in DOMAIN T /\ T.out = "memory" /\ UNCHANGED m
TraceInit == BInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ m' = [s \in Slots |-> Empty]
    \/ (TMake \/ TView \/ TDrop \/ TAdapt \/ TBlock \/ TGrid \/ TPut \/ TConv \/ TCopy \/ TMove \/ TCopyAssign \/ TMoveAssign \/ TSwap \/ TMultiply \/ TStat \/ TFailed) /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<m, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
