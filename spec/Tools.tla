--------------------------------- MODULE Tools ---------------------------------
(* The command line tools: generate_matrix, show_pattern and benchmark. Data files
   hold elements, numbers <<hi, lo>> of MatrixValue, column by column. *)
EXTENDS MatrixValue, FiniteSets
CONSTANT Names
VARIABLE file
B == INSTANCE Blocks WITH Slots <- Names, m <- file
S == INSTANCE BlockSize WITH detect <- file, min <- file, max <- file, borders <- file, phase <- file
Nothing == [here |-> FALSE, hi |-> <<>>, lo |-> <<>>]
Data(m) == [here |-> TRUE, hi |-> m.hi, lo |-> m.lo]
TInit == file = [f \in Names |-> Nothing]
\* a data file seen as a matrix; a file too short for it is no such matrix
Readable(f, r, c) == file[f].here /\ r * c <= Len(file[f].hi)
Read(f, r, c) == [r |-> r, c |-> c, hi |-> SubSeq(file[f].hi, 1, r * c), lo |-> SubSeq(file[f].lo, 1, r * c)]
Put_(f, hi, lo) == file' = [file EXCEPT ![f] = [here |-> TRUE, hi |-> hi, lo |-> lo]]
Diff(i, j) == IF i < j THEN j - i ELSE i - j
Band(r, c, b, v) == Build(r, c, LAMBDA i, j : IF Diff(i, j) < b THEN v[1] ELSE 0, LAMBDA i, j : IF Diff(i, j) < b THEN v[2] ELSE 0)
\* a command line that can not be understood, a request for help, a place that can not be written
Refused(how) == how \in {"unknown", "missing", "word", "nowhere", "extra"}
\* ---- generate_matrix
Generate(f, r, c, b, v, how) ==
    IF Refused(how) \/ how = "help" THEN UNCHANGED file
    ELSE file' = [file EXCEPT ![f] = Data(Band(r, c, b, v))]
Status(how) == IF Refused(how) THEN 1 ELSE 0
\* ---- show_pattern. A palette entry [i, c, e] colours numbers of at least 10^-e
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Reaches(v, e) == IF e <= 0 THEN ~Less(AbsV(v), <<Pow10(0 - e), 0>>) ELSE v[1] # 0
First(pal, bg, R(_)) == LET k == {n \in DOMAIN pal : R(pal[n].e)} IN
    IF k = {} THEN bg ELSE pal[CHOOSE n \in k : \A o \in k : n <= o].i
ElementPixels(m, pal, bg) == [i \in 1..m.r |-> [j \in 1..m.c |-> First(pal, bg, LAMBDA e : Reaches(At(m, i - 1, j - 1), e))]]
\* blocks are coloured by 10 to the power of minus their type, with a border at the top and on the left
BlockPixels(m, rows, cols, th, w, pal, bg) ==
    LET q == B!Pieces(m, rows, cols)
        y == [p \in DOMAIN q |-> B!Index(B!Choice(th, q[p])) - 1]
    IN [i \in 1..m.r |-> [j \in 1..m.c |->
          LET k == B!Holder(rows, i - 1) l == B!Holder(cols, j - 1) IN
          IF i - 1 - B!Before(rows, k) < w \/ j - 1 - B!Before(cols, l) < w THEN bg
          ELSE First(pal, bg, LAMBDA e : y[(l - 1) * Len(rows) + k] <= e)]]
\* binary exponents of the elements, the profile that borders of blocks follow
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ PowerOfTwo(n \div 2))
Exponent(v) == LET a == AbsV(v) IN
    IF a = <<0, 0>> THEN 0 ELSE IF a[1] = 0 THEN Bits(a[2]) - 30
    ELSE IF a[2] < 0 /\ PowerOfTwo(a[1]) THEN Bits(a[1]) - 1 ELSE Bits(a[1])
Exponents(m) == [i \in 1..m.r |-> [j \in 1..m.c |-> Exponent(At(m, i - 1, j - 1))]]
\* sequences of positive numbers with sum n
RECURSIVE Splits(_)
Splits(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o s : s \in Splits(n - k)} : k \in 1..n}
Whole(m, mx) == m.r <= mx /\ m.c <= mx
RowSplits(m, mn, mx) == IF Whole(m, mx) THEN {<<m.r>>} ELSE IF m.r = 0 THEN {<<0>>} ELSE LET d == S!RowDetect(Exponents(m), m.r, m.c) IN {s \in Splits(m.r) : S!IsResult(d, mn, mx, s)}
ColSplits(m, mn, mx) == IF Whole(m, mx) THEN {<<m.c>>} ELSE IF m.c = 0 THEN {<<0>>} ELSE LET d == S!ColDetect(Exponents(m), m.r, m.c) IN {s \in Splits(m.c) : S!IsResult(d, mn, mx, s)}
Colours(pal, bg, bgc) == [k \in 1..(Len(pal) + 1) |-> IF k <= Len(pal) THEN [i |-> pal[k].i, c |-> pal[k].c] ELSE [i |-> bg, c |-> bgc]]
Image(x, m, pal, bg, bgc) == x.wellFormed /\ x.columns = m.c /\ x.rows = m.r /\ x.colours = Len(pal) + 1 /\ x.chars = 1 /\ x.palette = Colours(pal, bg, bgc)
\* a: what was asked for; status 0 with the image x, or another status
Show(a, status, here, x) ==
    /\ UNCHANGED file
    /\ IF a.how = "help" THEN status = 0 /\ ~here
       ELSE IF Refused(a.how) \/ ~Readable(a.f, a.r, a.c) \/ a.mode \notin {"elements", "type-blocks"} THEN status = 1 /\ ~here
       ELSE LET m == Read(a.f, a.r, a.c) IN
         IF a.mode = "elements" THEN status = 0 /\ here /\ Image(x, m, a.pal, a.bg, a.bgc) /\ x.pixels = ElementPixels(m, a.pal, a.bg)
         ELSE IF 2 * a.min > a.max THEN status = 1 /\ ~here
         ELSE \E rows \in RowSplits(m, a.min, a.max), cols \in ColSplits(m, a.min, a.max) :
              IF B!CanBlock(a.th, m, rows, cols)
              THEN status = 0 /\ here /\ Image(x, m, a.pal, a.bg, a.bgc) /\ x.pixels = BlockPixels(m, rows, cols, a.th, a.w, a.pal, a.bg)
              ELSE status = 1 /\ ~here
\* ---- benchmark. Sets of matrices
Concat(s) == LET RECURSIVE C(_) C(n) == IF n = 0 THEN <<>> ELSE C(n - 1) \o s[n] IN C(Len(s))
Bands(x) == Concat([d \in DOMAIN x.dims |-> [w \in DOMAIN x.bws |-> Band(x.dims[d], x.dims[d], x.bws[w], x.v)]])
RECURSIVE Members(_, _, _)          \* the first n sources of a set, given the other set
Members(src, n, other) ==
    IF n = 0 THEN <<>>
    ELSE LET x == src[n] before == Members(src, n - 1, other) IN
         CASE x.k = "band" -> before \o Bands(x)
           [] x.k = "file" -> Append(before, Read(x.f, x.r, x.c))
           [] x.k = "equal" -> other
SourcesOk(src, known) == \A n \in DOMAIN src :
    CASE src[n].k = "band" -> TRUE
      [] src[n].k = "file" -> Readable(src[n].f, src[n].r, src[n].c)
      [] src[n].k = "equal" -> known
      [] OTHER -> FALSE
\* actions: operands that are rounded to single precision
Actions == [openblas_dgemm |-> "", eigen_dgemm |-> "", blaze_dgemm |-> "", native_dense |-> "", blasbooster_block |-> "",
            openblas_sgemm |-> "ab", eigen_sgemm |-> "ab", blaze_sgemm |-> "ab", blaze_sdgemm |-> "a", blaze_dsgemm |-> "b"]
Known(x) == x.n \in DOMAIN Actions
NoLow(v) == \A p \in DOMAIN v.lo : v.lo[p] = 0
Diagonal(v) == \A i \in 0..(v.r - 1), j \in 0..(v.c - 1) : i # j => Hi(v, i, j) = 0 /\ Lo(v, i, j) = 0
\* no sums of numbers of different magnitude: products are exact once the operands are rounded
Tame(a, b) == (NoLow(a) /\ (NoLow(b) \/ Diagonal(a))) \/ (NoLow(b) /\ Diagonal(b))
Result(x, a, b) == Times(IF Actions[x.n] \in {"ab", "a"} THEN Single(a) ELSE a, IF Actions[x.n] \in {"ab", "b"} THEN Single(b) ELSE b)
\* a blocked product may hold parts in single precision
Blurred(x, a, b) == x.n = "blasbooster_block" /\ ~(NoLow(a) /\ NoLow(b))
Deviation(x, ref, a, b) == Minus(Result(x, a, b), Result(ref, a, b))
Close(got, want) == Abs(got - want) * 200 <= want
\* a row of the table: [i, n, max, sq]: pair, action, norms of the deviation (sq squared) in units of 2^-30
IsRow(row, i, x, ref, isRef, a, b) ==
    /\ row.i = i - 1 /\ row.n = x.n
    /\ IF isRef THEN row.max = 0 /\ row.sq = 0
       ELSE IF Blurred(x, a, b) \/ Blurred(ref, a, b) \/ ~Tame(a, b) THEN row.max <= 1000000
       ELSE LET d == Deviation(x, ref, a, b) IN
            \* the actions agree on everything but the low parts
            /\ \A p \in DOMAIN d.hi : d.hi[p] = 0
            /\ Close(row.max, MaxAbs(d)[2]) /\ Close(row.sq, LowSquareSum(d))
BlockOk(x) == x.n # "blasbooster_block" \/ 2 * x.min <= x.max
Bench(a, status, rows, diffs) ==
    /\ UNCHANGED file
    /\ IF a.how = "help" THEN status = 0 /\ rows = <<>> /\ diffs = <<>>
       ELSE IF Refused(a.how) THEN status = 1 /\ rows = <<>> /\ diffs = <<>>
       ELSE IF ~SourcesOk(a.A, FALSE) \/ ~SourcesOk(a.B, Len(a.A) > 0) \/ \E n \in DOMAIN a.actions : ~Known(a.actions[n]) THEN status = 1 /\ rows = <<>> /\ diffs = <<>>
       ELSE LET A == Members(a.A, Len(a.A), <<>>) C == Members(a.B, Len(a.B), A) n == Len(a.actions) IN
         IF Len(A) = 0 \/ Len(A) # Len(C) \/ n = 0 THEN status = 1 /\ rows = <<>> /\ diffs = <<>>
         ELSE IF (\E i \in DOMAIN A : A[i].c # C[i].r) \/ (\E k \in 1..n : ~BlockOk(a.actions[k])) THEN status = 1
         ELSE /\ status = 0 /\ Len(rows) = Len(A) * n
              /\ \A i \in DOMAIN A, k \in 1..n : IsRow(rows[(i - 1) * n + k], i, a.actions[k], a.actions[1], k = 1, A[i], C[i])
              /\ Len(diffs) = (IF a.diff /\ n > 1 THEN Len(A) ELSE 0)
              /\ \A i \in DOMAIN diffs : LET x == a.actions[n] r == a.actions[1] IN
                 /\ diffs[i].i = i - 1 /\ Len(diffs[i].hi) = A[i].r * C[i].c
                 /\ (Blurred(x, A[i], C[i]) \/ Blurred(r, A[i], C[i]) \/ ~Tame(A[i], C[i])) \/ LET d == Deviation(x, r, A[i], C[i]) IN diffs[i].hi = d.hi /\ diffs[i].lo = d.lo
=============================================================================
