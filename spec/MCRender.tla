-------------------------------- MODULE MCRender --------------------------------
(* Output determines the matrix: every small matrix of every kind is printed in the
   canonical form, which is accepted for that matrix only; every palette classifies
   every value. *)
EXTENDS Render, Json, TLC
CONSTANTS Top, Values, Thresholds
VARIABLES case, step
mvars == <<vars, case, step>>
Kinds == {"DC", "DR", "FC", "FR", "IC", "IR", "V", "SC", "SR", "GC", "GR"}
Vals(k) == IF k \in {"IC", "IR"} THEN {4 * v : v \in Values} ELSE Values \cup {-v : v \in Values}
Matrices(k, r, c) == {Part(k, r, c, e) : e \in [1..(r * c) -> Vals(k)]}
Shapes == {<<r, c>> \in (0..Top) \X (0..Top) : r * c <= Top + 1}
Texts == UNION {UNION {{[w |-> "text", p |-> p, on |-> on, pal |-> <<>>] : p \in Matrices(k, s[1], s[2]), on \in BOOLEAN} : s \in Shapes} : k \in Kinds}
    \cup {[w |-> "text", p |-> Part("Z", r, c, <<>>), on |-> on, pal |-> <<>>] : r \in 0..Top, c \in 0..Top, on \in BOOLEAN}
Pals == UNION {[1..n -> Thresholds] : n \in 0..3}
Pal(q) == [k \in DOMAIN q |-> [i |-> <<"p", "q", "s">>[k], c |-> <<"111111", "222222", "333333">>[k], q |-> q[k]]]
Ramp(k) == LET v == IF k \in {"IC", "IR"} THEN <<-8, -4, 0, 4, 8, 12>> ELSE <<-3, -1, 0, 1, 2, 5>> IN v
Images == {[w |-> "image", p |-> Part(k, r, 6 \div r, Ramp(k)), on |-> FALSE, pal |-> Pal(q)] : k \in {x \in Kinds : Dense(x)}, r \in {1, 2, 3, 6}, q \in Pals}
    \cup {[w |-> "image", p |-> Part(k, r, c, <<>>), on |-> FALSE, pal |-> Pal(q)] : k \in {"DC", "DR", "V"}, r \in {0}, c \in 0..2, q \in {<<>>, <<1>>}}
    \cup {[w |-> "image", p |-> Part(k, r, 0, <<>>), on |-> FALSE, pal |-> Pal(q)] : k \in {"DC", "DR", "V"}, r \in 1..2, q \in {<<>>, <<1>>}}
MCInit == RInit /\ case \in Texts \cup Images /\ step = 0
MCNext == step = 0 /\ step' = 1 /\ UNCHANGED case /\ Make("a", <<case.p>>)
Spec == MCInit /\ [][MCNext]_mvars
Line(t, n, at) == [t |-> t, n |-> n, at |-> at]
\* canonical text
Ends(p) == [j \in 1..p.c |-> 18 * j]
RowLine(p, i) == Line("", [j \in 1..p.c |-> At(p, i, j)], Ends(p))
Row(k, n) == [j \in 1..n |-> k]
SparseOf(p) ==
    LET n == Lines(p)
        m == IF RowOrder(p.k) THEN p.c ELSE p.r
        Val(i, j) == IF RowOrder(p.k) THEN At(p, i, j) ELSE At(p, j, i)
        L(i) == SelectSeq([j \in 1..m |-> <<j - 1, Val(i, j)>>], LAMBDA x : x[2] # 0)
        F[i \in 0..n] == IF i = 0 THEN <<>> ELSE F[i - 1] \o L(i)
        O == [i \in 1..(n + 1) |-> Len(F[i - 1])] IN
    <<Line("Value array", [k \in DOMAIN F[n] |-> F[n][k][2]], <<>>), Line("Key array", [k \in DOMAIN F[n] |-> F[n][k][1]], <<>>), Line("Offset array", O, <<>>)>>
Canon(p, f) ==
    CASE p.k = "Z" -> <<Line("n", <<>>, <<>>), Line("Size", <<p.r * p.c>>, <<>>), Line("Dimension", <<p.r, p.c>>, <<>>)>>
      [] Sparse(p.k) -> <<Line("n", <<>>, <<>>), Line("Size", <<p.r * p.c>>, <<>>), Line("Dimension", <<p.r, p.c>>, <<>>)>> \o SparseOf(p)
      [] OTHER -> (IF f THEN <<Line("n", <<>>, <<>>), Line("Dimension", <<p.r, p.c>>, <<>>)>> ELSE <<>>) \o Printing(<<Line("", <<>>, <<>>)>> \o [i \in 1..p.r |-> RowLine(p, i)] \o <<Line("", <<>>, <<>>)>>)
Printed == step = 1 /\ case.w = "text" => Text(slot["a"], case.on, <<"n">>, Canon(case.p, case.on))
\* no other matrix of this kind and shape has this text, nor has it a prefix or extension of the text
Faithful == step = 1 /\ case.w = "text" /\ ~case.on /\ case.p.k # "Z" =>
    LET L == Canon(case.p, case.on) p == case.p IN
    /\ \A k \in DOMAIN p.e, v \in Vals(p.k) : v # p.e[k] => ~Text(<<[p EXCEPT !.e[k] = v]>>, FALSE, <<"n">>, L)
    /\ (L # <<>> => ~Text(<<p, p>>, FALSE, <<"n", "n">>, L)) /\ (p.r # p.c => ~Text(<<[p EXCEPT !.r = p.c, !.c = p.r]>>, FALSE, <<"n">>, L) \/ p.e = <<>>)
Classes(p) == {Class(case.pal, "b", v) : v \in {p.e[k] : k \in DOMAIN p.e}}
\* the first reached threshold decides; background only below all thresholds
Classified == step = 1 /\ case.w = "image" => \A k \in DOMAIN case.p.e : LET v == case.p.e[k] x == Class(case.pal, "b", v) IN
    /\ (x = "b") = (\A m \in DOMAIN case.pal : Abs(v) < case.pal[m].q)
    /\ \A m \in DOMAIN case.pal : x = case.pal[m].i => Abs(v) >= case.pal[m].q /\ \A n \in 1..(m - 1) : Abs(v) < case.pal[n].q
Emit == step = 0 => PrintT("@@" \o ToJson(case))
=============================================================================
