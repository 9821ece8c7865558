--------------------------------- MODULE MCFill ---------------------------------
(* Every filler on every small matrix of every storage order, in every way it can
   be applied; small windows of dense matrices. *)
EXTENDS Fill, Json, TLC
CONSTANTS Top, Values
VARIABLES case, step
mvars == <<vars, case, step>>
Dense == {"DC", "DR", "FC", "FR", "IC", "IR"}
Fillers(k) == {Filler("all", v) : v \in Values \cup {-3}} \cup {Filler("increasing", 0)}
    \cup (IF k \in Dense \ {"IC", "IR"} THEN {Filler("hilbert", 0)} ELSE {})
    \cup (IF k \in Dense THEN {Filler("diagonal", v) : v \in Values} ELSE {})
Dim == 0..Top
NoWin == [r0 |-> 0, c0 |-> 0, r |-> 0, c |-> 0]
Windows(r, c) == {w \in [r0 : Dim, c0 : Dim, r : Dim, c : Dim] : Inside(w, [r |-> r, c |-> c])}
Case(k, r, c, f, how, w, r1, c1) == [k |-> k, r |-> r, c |-> c, f |-> f, how |-> how, w |-> w, r1 |-> r1, c1 |-> c1, room |-> r * c]
\* the positions of a sparse matrix are only known after it has been filled with increasing numbers
Constructible(x) == ~(Sparse(x.k) /\ x.how = "new" /\ x.f.f # "increasing")
Tight == {[x EXCEPT !.room = n] : x \in {Case(k, r, c, Filler("increasing", 0), "new", NoWin, 0, 0) : k \in {"SC", "SR", "GC", "GR"}, r \in Dim, c \in Dim}, n \in 1..(Top * Top + 1)}
Cases == Tight \cup
    UNION {{x \in {Case(k, r, c, f, how, NoWin, 0, 0) : f \in Fillers(k), how \in {"new", "fill"}, r \in Dim, c \in Dim} : Constructible(x)} : k \in Dense \cup {"SC", "SR", "GC", "GR"}} \cup
    UNION {{Case(k, r, c, f, "resize", NoWin, r1, c1) : f \in {g \in Fillers(k) : Square(g, r1, c1)}, r \in {0, Top}, c \in {1, Top}} : k \in Dense, r1 \in Dim, c1 \in Dim} \cup
    UNION {UNION {{Case(k, r, c, f, "part", w, 0, 0) : f \in Fillers(k), w \in Windows(r, c)} : k \in {"DC", "FC", "IC"}} : r \in {Top - 1, Top}, c \in {1, Top}}
MCInit == FInit /\ case \in Cases /\ step = 0
Base == IF Sparse(case.k) THEN Filler("increasing", 0) ELSE Filler("all", 50)
MCNext ==
    /\ UNCHANGED case /\ step' = step + 1
    /\ \/ step = 0 /\ (IF case.how = "new" THEN UNCHANGED vars ELSE New("a", case.k, case.r, case.c, Base, case.r * case.c, TRUE))
       \/ step = 1 /\ \E ok \in BOOLEAN :
            \/ case.how = "new" /\ New("a", case.k, case.r, case.c, case.f, case.room, ok)
            \/ case.how = "resize" /\ New("a", case.k, case.r1, case.c1, case.f, case.room, ok)
            \/ case.how = "fill" /\ Apply("a", case.f, ok)
            \/ case.how = "part" /\ Part("a", case.f, case.w, ok)
Spec == MCInit /\ [][MCNext]_mvars
M == slot["a"]
At(m, i, j) == m.e[i + j * m.r + 1]
Done == step = 2
\* a filler is decided for every shape
Decided == step = 1 => ENABLED MCNext
\* increasing numbers: each of 1..n exactly once, neighbours in the order of storage follow each other
Increasing == Done /\ M.kind # "none" /\ case.f.f = "increasing" /\ case.how # "part" =>
    /\ {M.e[p] : p \in DOMAIN M.e} = 1..(M.r * M.c)
    /\ \A i \in 0..(M.r - 1), j \in 0..(M.c - 1) :
        IF Row(M.kind) THEN j > 0 => At(M, i, j) = At(M, i, j - 1) + 1 ELSE i > 0 => At(M, i, j) = At(M, i - 1, j) + 1
\* Hilbert matrices are symmetric and constant along antidiagonals
Hilbert == Done /\ M.kind # "none" /\ case.f.f = "hilbert" /\ case.how # "part" => \A i, k \in 0..(M.r - 1), j, n \in 0..(M.c - 1) : i + j = k + n => At(M, i, j) = At(M, k, n)
Diagonal == Done /\ M.kind # "none" /\ case.f.f = "diagonal" /\ M.r = M.c /\ case.how # "part" => \A i, j \in 0..(M.r - 1) : At(M, i, j) = IF i = j THEN case.f.v ELSE 0
\* nothing outside of a window changes
Outside == Done /\ case.how = "part" => \A i \in 0..(M.r - 1), j \in 0..(M.c - 1) : InWindow(case.w, i, j) \/ At(M, i, j) = 50
Emit == step = 0 => PrintT("@@" \o ToJson(case))
=============================================================================
