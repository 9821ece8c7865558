------------------------------ MODULE MCTracker ------------------------------
(* Bounded histories with a log of the completed operations; the register   *)
(* is what the log adds up to. Every complete history becomes a program     *)
(* that the driver executes with real (recursively nested, throwing) scopes *)
(* or with overlapping handles.                                             *)
EXTENDS Tracker, TLC, Json
CONSTANTS MaxOps, Nested
VARIABLES prog, log
v == <<tvars, prog, log>>
MInit == Init /\ prog = <<>> /\ log = <<>>
Dur == {<<0, 1>>, <<3, 999999>>}
Top == Cardinality(DOMAIN running)
Fin(hs) == log' = log \o [k \in 1..Cardinality(hs) |->
             LET h == CHOOSE x \in hs : Cardinality({y \in hs : y > x}) = k - 1 IN [id |-> running[h].id, d |-> TSub(now, running[h].start)]]
MNext ==
  /\ Len(prog) < MaxOps
  /\ \/ \E i \in Ids, h \in 1..3 : (Nested => h = Top + 1) /\ Begin(h, i) /\ prog' = Append(prog, <<"B", h, i>>) /\ log' = log
     \/ \E d \in Dur : Advance(d) /\ prog' = Append(prog, <<"A", d[1], d[2]>>) /\ log' = log /\ (prog # <<>> => prog[Len(prog)][1] # "A")
     \/ \E h \in DOMAIN running : (Nested => h = Top) /\ Complete(h) /\ prog' = Append(prog, <<"E", h, 0>>) /\ Fin({h})
     \/ Nested /\ \E n \in 1..Top : CompleteAll({h \in 1..Top : h > Top - n}) /\ prog' = Append(prog, <<"X", n, 0>>) /\ Fin({h \in 1..Top : h > Top - n})
MSpec == MInit /\ [][MNext]_v
RECURSIVE SumOf(_, _)
SumOf(s, i) == IF s = <<>> THEN TZero ELSE TAdd(IF Head(s).id = i THEN Head(s).d ELSE TZero, SumOf(Tail(s), i))
\* the register is exactly the log
Adds == \A i \in Ids : /\ count[i] = Cardinality({k \in DOMAIN log : log[k].id = i})
                       /\ total[i] = SumOf(log, i)
Monotone == [][\A i \in Ids : count'[i] >= count[i]]_v
Settled == DOMAIN running = {} => Len(log) = Cardinality({k \in DOMAIN prog : prog[k][1] = "B"})
Emit == (DOMAIN running = {} /\ prog # <<>> /\ Len(prog) = MaxOps) => PrintT("@@" \o ToJson(prog))
==============================================================================
