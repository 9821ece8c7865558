----------------------------- MODULE Dispatch -----------------------------
(* Runtime type dispatch over a list of types.                             *)
(* A dispatch scans the list for the first type accepted by the predicate  *)
(* of each operand, one candidate per step, and then runs the one action.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES types,    \* the type list (sequence of distinct type identities)
          want1, want2,   \* sets of types accepted by the operand predicates; want2 = {} for one operand
          dims,     \* number of operands
          pos,      \* candidate positions examined next, one per operand
          found,    \* types selected so far
          ran,      \* actions executed
          result    \* "running", "done", "error"
dvars == <<types, want1, want2, dims, pos, found, ran, result>>

Range(s) == {s[i] : i \in DOMAIN s}

\* --- declarative meaning -------------------------------------------------
HasMatch(ts, w) == \E i \in DOMAIN ts : ts[i] \in w
FirstMatch(ts, w) == ts[CHOOSE i \in DOMAIN ts : ts[i] \in w /\ \A j \in 1..(i-1) : ts[j] \notin w]
IndexOf(ts, x) == IF \E i \in DOMAIN ts : ts[i] = x THEN (CHOOSE i \in DOMAIN ts : ts[i] = x) - 1 ELSE Len(ts)

Outcome1(ts, w) == IF HasMatch(ts, w) THEN << <<FirstMatch(ts, w)>> >> ELSE <<>>
Outcome2(ts, w1, w2) == IF HasMatch(ts, w1) /\ HasMatch(ts, w2) THEN << <<FirstMatch(ts, w1), FirstMatch(ts, w2)>> >> ELSE <<>>

\* --- operational model: the scan ----------------------------------------
Start(ts, d, w1, w2) ==
    /\ types = ts /\ dims = d /\ want1 = w1 /\ want2 = w2
    /\ pos = 1 /\ found = <<>> /\ ran = <<>> /\ result = "running"
Want == IF Len(found) = 0 THEN want1 ELSE want2
Reject == /\ result = "running" /\ pos < Len(types) /\ types[pos] \notin Want
          /\ pos' = pos + 1 /\ UNCHANGED <<types, want1, want2, dims, found, ran, result>>
Exhausted == /\ result = "running" /\ pos = Len(types) /\ types[pos] \notin Want
             /\ result' = "error" /\ UNCHANGED <<types, want1, want2, dims, pos, found, ran>>
Select == /\ result = "running" /\ types[pos] \in Want
          /\ found' = Append(found, types[pos])
          /\ IF Len(found) + 1 = dims
             THEN ran' = Append(ran, found') /\ result' = "done" /\ pos' = pos
             ELSE pos' = 1 /\ UNCHANGED <<ran, result>>
          /\ UNCHANGED <<types, want1, want2, dims>>
Step == Reject \/ Exhausted \/ Select

\* --- properties ----------------------------------------------------------
AtMostOnce == Len(ran) <= 1
Finished == result # "running" =>
    /\ ran = IF dims = 1 THEN Outcome1(types, want1) ELSE Outcome2(types, want1, want2)
    /\ (result = "error") = (ran = <<>>)
Terminates == <>(result # "running")
===========================================================================
