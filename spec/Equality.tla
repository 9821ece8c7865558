-------------------------------- MODULE Equality --------------------------------
(* Approximate equality of matrices and storages. A value is <<h, m, l>>:
   h + m * 2^-14 + l * 2^-40, so that the two tolerances fall between values. *)
EXTENDS Integers, Sequences
DenseDouble == {"DC", "DR", "V", "sd", "hd", "fd"}
DenseFloat == {"FC", "FR", "W", "sf", "hf", "ff"}
DenseInt == {"I", "IR"}
Storages == {"sd", "hd", "fd", "sf", "hf", "ff"}
FixedSize == {"sd", "hd", "sf", "hf"}       \* three elements
NoElements == {"Z", "ZR"}
Family(t) == IF t \in NoElements THEN "zero" ELSE IF t \in Storages THEN "storage" ELSE "dense"
Comparable(s, t) == Family(s) = Family(t)
\* tolerances in units of 2^-40, rounded down: 1e-4, 1e-12, 0
Tolerance(t) == IF t \in DenseFloat THEN 109951162 ELSE IF t \in DenseDouble THEN 1 ELSE 0
Larger(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
\* |m| of the operands is at most 64 and |l| at most 50000000
Within(x, y, tol) ==
    /\ x[1] = y[1]
    /\ Abs(x[2] - y[2]) <= 8
    /\ Abs((x[2] - y[2]) * 67108864 + (x[3] - y[3])) <= tol
Equal(a, b) == /\ a.r = b.r /\ a.c = b.c
               /\ LET tol == Larger(Tolerance(a.t), Tolerance(b.t)) IN \A p \in DOMAIN a.e : Within(a.e[p], b.e[p], tol)
\* what a representation can hold
Holds(t, x) == /\ t \in DenseFloat => x[3] = 0
               /\ t \in DenseInt => x[2] = 0 /\ x[3] = 0
IsOperand(a) == /\ (a.t \in NoElements => a.e = <<>>) /\ (a.t \notin NoElements => Len(a.e) = a.r * a.c)
                /\ \A p \in DOMAIN a.e : Holds(a.t, a.e[p])
                /\ a.t \in Storages => a.c = 1
                /\ a.t \in FixedSize => a.r = 3
=============================================================================
