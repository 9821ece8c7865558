-------------------------------- MODULE MCTools --------------------------------
(* Every small command of the three tools; the checks of the results are exercised
   on the canonical result of each command and on spoiled ones. *)
EXTENDS Tools, Json, TLC
CONSTANTS Top, Wide
VARIABLES case, step
mvars == <<file, case, step>>

Generates == {[w |-> "generate", r |-> r, c |-> c, b |-> b, v |-> v, how |-> h] :
    r \in 0..Top, c \in 0..Top, b \in 0..(Top + 1), v \in {<<2, 0>>, <<0 - 1, 3>>}, h \in {"ok"}}
    \cup {[w |-> "generate", r |-> 2, c |-> 1, b |-> 1, v |-> <<1, 0>>, how |-> h] : h \in {"help", "unknown", "missing", "word", "nowhere", "extra"}}
\* patterns: matrices with few different elements
Cells == {<<0, 0>>, <<0, 2>>, <<3, 0>>, <<12, 1>>}
Mat(r, c, q) == [r |-> r, c |-> c, hi |-> [p \in 1..(r * c) |-> q[p][1]], lo |-> [p \in 1..(r * c) |-> q[p][2]]]
Shapes == {<<r, c>> \in (1..Wide) \X (1..Wide) : r * c <= Wide}
Pals == {<<>>, <<0>>, <<-1, 0>>, <<0, -1>>, <<1>>}
Shows == {[w |-> "show", m |-> Mat(s[1], s[2], q), pal |-> p, mode |-> "elements", bw |-> 0, mn |-> 1, mx |-> 2] :
    s \in {<<1, 1>>, <<1, 2>>, <<2, 1>>}, q \in [1..2 -> Cells], p \in Pals}
    \cup UNION {{[w |-> "show", m |-> Mat(s[1], s[2], q), pal |-> <<0, 1, 2, 3, 4, 5, 6>>, mode |-> "type-blocks", bw |-> b, mn |-> mn, mx |-> mx] :
        q \in [1..(s[1] * s[2]) -> {<<0, 0>>, <<0, 2>>, <<3, 1>>}], b \in 0..2, mn \in {1}, mx \in {2, 4}} : s \in Shapes}
    \cup {[w |-> "show", m |-> Mat(2, 2, [p \in 1..4 |-> <<p, 0>>]), pal |-> <<0, 1, 2, 3, 4, 5, 6>>, mode |-> mo, bw |-> 1, mn |-> mn, mx |-> 2] : mo \in {"bogus", "type-blocks"}, mn \in {1, 2}}
Singles == {"openblas_dgemm", "eigen_dgemm", "blaze_dgemm", "native_dense", "blasbooster_block", "openblas_sgemm", "eigen_sgemm", "blaze_sgemm", "blaze_sdgemm", "blaze_dsgemm"}
Acts == {<<>>, <<"bogus">>, <<"native_dense", "bogus">>} \cup {<<a>> : a \in Singles} \cup {<<a, b>> : a \in Singles, b \in Singles}
BandOf(n, b, v) == [k |-> "band", dims |-> <<n>>, bws |-> <<b>>, v |-> v]
Sets == {<<BandOf(2, 2, <<3, 1>>), BandOf(2, 1, <<2, 0>>)>>, <<BandOf(2, 1, <<2, 0>>), BandOf(2, 2, <<3, 1>>)>>, <<BandOf(3, 2, <<2, 0>>), BandOf(3, 3, <<5, 0>>)>>}
Benches == {[w |-> "bench", acts |-> a, A |-> s[1], B |-> s[2], diff |-> d] : a \in Acts, s \in Sets, d \in BOOLEAN}
    \cup {[w |-> "bench", acts |-> <<a>>, A |-> BandOf(2, 1, <<1, 0>>), B |-> BandOf(3, 1, <<1, 0>>), diff |-> FALSE] : a \in Singles}
MCInit == TInit /\ case \in Generates \cup Shows \cup Benches /\ step = 0
Act(n) == [n |-> n, min |-> 1, max |-> 2]
Args == [f |-> "a", r |-> case.m.r, c |-> case.m.c, mode |-> case.mode, w |-> case.bw, how |-> "ok", min |-> case.mn, max |-> case.mx,
         th |-> [d |-> <<0, 0>>, s |-> <<1, 0>>, den |-> 4, occ |-> <<<<0, 0>>, <<2, 0>>, <<4, 0>>, <<2, 2>>, <<2, 2>>, <<4, 2>>, <<4, 4>>>>],
         pal |-> [k \in DOMAIN case.pal |-> [i |-> <<"p", "q", "s", "t", "u", "v", "x">>[k], c |-> "111111", e |-> case.pal[k]]], bg |-> "k", bgc |-> "000000"]
MCNext == step = 0 /\ step' = 1 /\ UNCHANGED case
    /\ CASE case.w = "generate" -> Generate("a", case.r, case.c, case.b, case.v, case.how)
         [] case.w = "show" -> Put_("a", case.m.hi, case.m.lo)
         [] OTHER -> UNCHANGED file
Spec == MCInit /\ [][MCNext]_mvars
\* ---- a band matrix is symmetric and its width is the number of its diagonals on either side
Banded == case.w = "generate" /\ step = 1 /\ case.how = "ok" =>
    LET m == Read("a", case.r, case.c) IN
    \A i \in 0..(case.r - 1), j \in 0..(case.c - 1) :
        /\ (At(m, i, j) # <<0, 0>>) = (Diff(i, j) < case.b)
        /\ i < case.c /\ j < case.r => At(m, i, j) = At(m, j, i)
\* blocks cover the matrix: every element off a border has the colour of the type of exactly one block that holds it
Drawn == case.w = "show" /\ step = 1 /\ case.mode = "type-blocks" /\ 2 * case.mn <= case.mx =>
    LET a == Args m == case.m IN
    /\ RowSplits(m, a.min, a.max) # {} /\ ColSplits(m, a.min, a.max) # {}
    /\ \A rows \in RowSplits(m, a.min, a.max), cols \in ColSplits(m, a.min, a.max) :
        /\ B!CanBlock(a.th, m, rows, cols)
        /\ LET x == BlockPixels(m, rows, cols, a.th, a.w, a.pal, a.bg)
               y == BlockPixels(m, rows, cols, a.th, 0, a.pal, a.bg) IN
           \A i \in 1..m.r, j \in 1..m.c :
               /\ x[i][j] \in {y[i][j], a.bg} /\ y[i][j] # a.bg
               /\ y[i][j] = "p" => At(m, i - 1, j - 1) = <<0, 0>>          \* a zero block holds zeros
\* results of rounded operands deviate only where low parts are lost
Rounded == case.w = "bench" /\ (\A n \in DOMAIN case.acts : Known(Act(case.acts[n]))) =>
    \A k \in DOMAIN case.acts :
        LET a == Bands(case.A)[1] b == Bands(case.B)[1] IN
        a.c = b.r => LET d == Deviation(Act(case.acts[k]), Act("native_dense"), a, b) IN
            (\A p \in DOMAIN d.hi : d.hi[p] = 0) /\ (NoLow(a) /\ NoLow(b) => MaxAbs(d) = <<0, 0>>)
Emit == step = 1 => PrintT("@@" \o ToJson(case))
=============================================================================
