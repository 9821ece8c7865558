-------------------------------- MODULE MCNames --------------------------------
EXTENDS Names, Json
CONSTANT Pool, IdPool, MaxOps
VARIABLE hist
Init == pairs = {} /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E n \in Pool, i \in IdPool : Register(n, i) /\ hist' = Append(hist, <<n, i>>)
Spec == Init /\ [][Next]_<<pairs, hist>>
OneToOne == Cardinality(Names) = Cardinality(IdSet)
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson(hist))
=============================================================================
