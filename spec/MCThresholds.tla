----------------------------- MODULE MCThresholds -----------------------------
(* All histories of at most MaxOps operations on the slots. A behaviour changes
   one setting of an object at a time; the property: changing one setting
   changes exactly the answer of its own query, in that object only. *)
EXTENDS Thresholds, TLC, Json
CONSTANT MaxOps
VARIABLES hist, last
Base == [k \in Keys |-> 0]
Init == thr = [s \in Slots |-> <<>>] /\ hist = <<>> /\ last = <<"init", 0, "">>
MakeOne == \E s \in Slots, k \in Keys :
    /\ Make(s, [Base EXCEPT ![k] = Len(hist) + 1])
    /\ hist' = Append(hist, <<"make", s, k, Len(hist) + 1>>) /\ last' = <<"make", s, k>>
CopyOne == \E s, d \in Slots, how \in {"copy", "assign"} :
    /\ Copy(s, d) /\ hist' = Append(hist, <<how, s, d, 0>>) /\ last' = <<how, d, "">>
Next == Len(hist) < MaxOps /\ (MakeOne \/ CopyOne)
Spec == Init /\ [][Next]_<<thr, hist, last>>
\* exactly the setting's own query sees it
Separate == \A s \in Slots : (last[1] = "make" /\ last[2] = s) =>
    {q \in Queries : Answer(s, q) # 0} = {q \in Queries : KeyOf(q) = last[3]}
OthersUntouched == [][\A s \in Slots : s # last'[2] => thr'[s] = thr[s]]_<<thr, hist, last>>
TypeOK == \A s \in Slots : thr[s] = <<>> \/ DOMAIN thr[s] = Keys
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================
