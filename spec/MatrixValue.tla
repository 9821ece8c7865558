------------------------------ MODULE MatrixValue ------------------------------
(* Mathematical matrices over numbers hi + lo * 2^-30, written <<hi, lo>> with
   small integers hi and lo. The low part makes a loss of double precision
   visible: single precision keeps it only where the high part is zero. A
   matrix is a record [r, c, hi, lo] with its elements column by column. *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN -x ELSE x
Pos(m, i, j) == j * m.r + i + 1                       \* i, j from 0
Hi(m, i, j) == m.hi[Pos(m, i, j)]
Lo(m, i, j) == m.lo[Pos(m, i, j)]
At(m, i, j) == <<Hi(m, i, j), Lo(m, i, j)>>
RECURSIVE Fold(_, _, _)
Fold(F(_), n, acc) == IF n = 0 THEN acc ELSE Fold(F, n - 1, acc + F(n))
Sum(n, F(_)) == Fold(F, n, 0)                         \* F(1) + .. + F(n)
Build(r, c, H(_, _), L(_, _)) ==
    [r |-> r, c |-> c,
     hi |-> [p \in 1..(r * c) |-> H((p - 1) % r, (p - 1) \div r)],
     lo |-> [p \in 1..(r * c) |-> L((p - 1) % r, (p - 1) \div r)]]
Zeros(r, c) == Build(r, c, LAMBDA i, j : 0, LAMBDA i, j : 0)
Const(r, c, v) == Build(r, c, LAMBDA i, j : v[1], LAMBDA i, j : v[2])
IsMatrix(m) == m.r >= 0 /\ m.c >= 0 /\ DOMAIN m.hi = 1..(m.r * m.c) /\ DOMAIN m.lo = 1..(m.r * m.c)
SameShape(a, b) == a.r = b.r /\ a.c = b.c
Same(a, b) == SameShape(a, b) /\ a.hi = b.hi /\ a.lo = b.lo
Plus(a, b) == Build(a.r, a.c, LAMBDA i, j : Hi(a, i, j) + Hi(b, i, j), LAMBDA i, j : Lo(a, i, j) + Lo(b, i, j))
Minus(a, b) == Build(a.r, a.c, LAMBDA i, j : Hi(a, i, j) - Hi(b, i, j), LAMBDA i, j : Lo(a, i, j) - Lo(b, i, j))
Negated(a) == Build(a.r, a.c, LAMBDA i, j : 0 - Hi(a, i, j), LAMBDA i, j : 0 - Lo(a, i, j))
Transposed(a) == Build(a.c, a.r, LAMBDA i, j : Hi(a, j, i), LAMBDA i, j : Lo(a, j, i))
\* one of the operands has no low parts, so the product is exact
Times(a, b) == Build(a.r, b.c,
    LAMBDA i, j : Sum(a.c, LAMBDA k : Hi(a, i, k - 1) * Hi(b, k - 1, j)),
    LAMBDA i, j : Sum(a.c, LAMBDA k : Hi(a, i, k - 1) * Lo(b, k - 1, j) + Lo(a, i, k - 1) * Hi(b, k - 1, j)))
\* rounding to single precision: 24 binary digits, to the nearest, ties to even.
\* High parts of 2^24 or more have no low part.
RECURSIVE Unit(_, _)
Unit(x, u) == IF x < 16777216 THEN u ELSE Unit(x \div 2, 2 * u)
RoundTo(x, u) == LET q == x \div u  h == 2 * (x % u) IN
                 IF h > u \/ (h = u /\ q % 2 = 1) THEN (q + 1) * u ELSE q * u
SingleHi(h) == IF Abs(h) <= 16777216 THEN h ELSE
               IF h < 0 THEN 0 - RoundTo(0 - h, Unit(0 - h, 1)) ELSE RoundTo(h, Unit(h, 1))
\* the largest power of two not above x
RECURSIVE Power(_)
Power(x) == IF x < 2 THEN 1 ELSE 2 * Power(x \div 2)
\* a single precision number next to h + l * 2^-30 is a multiple of that many low units (h # 0)
LowUnit(h, l) == LET a == Abs(h) p == Power(a) IN IF a = p /\ ((h > 0) = (l < 0)) THEN 64 * p ELSE 128 * p
SingleLo(h, l) ==
    IF l = 0 \/ Abs(h) >= 1048576 THEN 0
    ELSE LET a == Abs(l)
             u == IF h = 0 THEN Unit(a, 1) ELSE LowUnit(h, l)
         IN IF l < 0 THEN 0 - RoundTo(a, u) ELSE RoundTo(a, u)
Single(a) == Build(a.r, a.c, LAMBDA i, j : SingleHi(Hi(a, i, j)), LAMBDA i, j : SingleLo(Hi(a, i, j), Lo(a, i, j)))
Window(a, r0, c0, r, c) == Build(r, c, LAMBDA i, j : Hi(a, r0 + i, c0 + j), LAMBDA i, j : Lo(a, r0 + i, c0 + j))
Inside(i, j, r0, c0, w) == i >= r0 /\ i < r0 + w.r /\ j >= c0 /\ j < c0 + w.c
Paste(a, r0, c0, w) == Build(a.r, a.c,
    LAMBDA i, j : IF Inside(i, j, r0, c0, w) THEN Hi(w, i - r0, j - c0) ELSE Hi(a, i, j),
    LAMBDA i, j : IF Inside(i, j, r0, c0, w) THEN Lo(w, i - r0, j - c0) ELSE Lo(a, i, j))
Put(a, i, j, v) == Paste(a, i, j, Const(1, 1, v))
\* ---- comparison of absolute values; |lo| stays far below 2^30
AbsV(v) == IF v[1] < 0 \/ (v[1] = 0 /\ v[2] < 0) THEN <<0 - v[1], 0 - v[2]>> ELSE v
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* a filter: "all", or an interval of absolute values [k, lower, upper] with k
   telling open (x) and closed (i) ends and upper = <<-1, 0>> for no limit *)
Passes(f, v) ==
    LET a == AbsV(v) IN
    CASE f.k = "all" -> TRUE
      [] OTHER -> /\ IF f.k \in {"xi", "xx", "x", "xf"} THEN Less(f.lower, a) ELSE ~Less(a, f.lower)
                  /\ f.upper[1] < 0 \/ (IF f.k \in {"xx", "ix"} THEN Less(a, f.upper) ELSE ~Less(f.upper, a))
Filtered(a, f) == Build(a.r, a.c, LAMBDA i, j : IF Passes(f, At(a, i, j)) THEN Hi(a, i, j) ELSE 0,
                                  LAMBDA i, j : IF Passes(f, At(a, i, j)) THEN Lo(a, i, j) ELSE 0)
CountPassing(a, f) == Sum(a.r * a.c, LAMBDA p : IF Passes(f, <<a.hi[p], a.lo[p]>>) THEN 1 ELSE 0)
NonZero == [k |-> "x", lower |-> <<0, 0>>, upper |-> <<-1, 0>>]
\* ---- norms
AbsSum(a) == <<Sum(a.r * a.c, LAMBDA p : AbsV(<<a.hi[p], a.lo[p]>>)[1]), Sum(a.r * a.c, LAMBDA p : AbsV(<<a.hi[p], a.lo[p]>>)[2])>>
RECURSIVE Largest(_, _, _)
Largest(a, n, best) == IF n = 0 THEN best
    ELSE LET v == AbsV(<<a.hi[n], a.lo[n]>>) IN Largest(a, n - 1, IF Less(best, v) THEN v ELSE best)
MaxAbs(a) == Largest(a, a.r * a.c, <<0, 0>>)
SquareSum(a) == Sum(a.r * a.c, LAMBDA p : a.hi[p] * a.hi[p])       \* integer part, dominates
\* the same as millions and rest, for elements up to a million: (1000 h + t)^2
Millions(a) ==
    LET H(p) == AbsV(<<a.hi[p], 0>>)[1] \div 1000
        T(p) == AbsV(<<a.hi[p], 0>>)[1] % 1000
        hh == Sum(a.r * a.c, LAMBDA p : H(p) * H(p))
        ht == Sum(a.r * a.c, LAMBDA p : 2 * H(p) * T(p))
        tt == Sum(a.r * a.c, LAMBDA p : T(p) * T(p)) + (ht % 1000) * 1000
    IN <<hh + (ht \div 1000) + (tt \div 1000000), tt % 1000000>>
LowSquareSum(a) == Sum(a.r * a.c, LAMBDA p : a.lo[p] * a.lo[p])    \* counts if there is no integer part
=============================================================================
