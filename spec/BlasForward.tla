---------------------------- MODULE BlasForward ----------------------------
(* The boundary between the BLAS interface and a back-end library.          *)
(* Values are abstracted to integer tokens. A wrapped call must appear at   *)
(* the boundary as exactly one call of the namesake routine which sees the  *)
(* caller's argument values in order; what the routine writes is what the   *)
(* caller finds afterwards; what it returns is what the caller gets.        *)
EXTENDS Integers, Sequences, FiniteSets, Json

Table == JsonDeserialize("blas_functions.json")  \* function from names to records [f, idx, ret, args, backends, prefix]

VARIABLES boundary      \* calls observed at the back-end boundary since the last wrapper call
bvars == <<boundary>>

Names == DOMAIN Table
Fn(n) == Table[n]
Supports(b, n) == \E i \in DOMAIN Fn(n).backends : Fn(n).backends[i] = b

\* what the (model of the) routine returns / writes into the p-th writable argument
Returned(n) == IF Fn(n).ret = "void" THEN 0 ELSE 700 + Fn(n).idx
Written(n, p, v) == IF Fn(n).args[p].c THEN v ELSE (IF Fn(n).args[p].t = "char" THEN 90 ELSE 300 + p)

BInit == boundary = <<>>

Call(b, n, vals) ==
    /\ n \in Names /\ Supports(b, n) /\ Len(vals) = Len(Fn(n).args)
    /\ boundary' = << [sym |-> Fn(n).prefix \o n, seen |-> vals] >>
After(n, vals) == [p \in DOMAIN vals |-> Written(n, p, vals[p])]

SetThreads(b, k) == boundary' = << [sym |-> "set_num_threads", seen |-> <<k>>] >>
ExactlyOnce == Len(boundary) <= 1
=============================================================================
