------------------------------- MODULE NamesTrace -------------------------------
EXTENDS Names, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tracker        \* tracker: identifiers seen, for the one-to-one check over the whole enumeration
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
TraceInit == pairs = {} /\ l = 1 /\ tracker = {}
Same == UNCHANGED <<pairs, tracker>>
TraceNext ==
    \/ Is("case") /\ pairs' = {} /\ tracker' = {}
    \/ Is("reg") /\ Register(T.name, T.id) /\ UNCHANGED tracker
    \* what was never registered is refused
    \/ Is("print") /\ Same /\ IF T.id \in IdSet THEN T.out = "ok" /\ T.name = NameOf(T.id) ELSE T.out = "error"
    \/ Is("parse") /\ Same /\ IF T.name \in Names THEN T.out = "ok" /\ T.id = IdOf(T.name) ELSE T.out = "error"
    \* the tracker enumeration: identifier spelled in the code, its name, and the way back
    \/ Is("tracker") /\ Same /\ T.sym \in TrackerNames /\ T.name = T.sym /\ T.back = T.value /\ T.again = T.name
    \/ /\ Is("trackerValue") /\ UNCHANGED pairs /\ T.back = T.value
       /\ ~ \E x \in tracker : x[1] = T.name \/ x[2] = T.value
       /\ tracker' = tracker \cup {<<T.name, T.value>>}
    \/ Is("trackerAll") /\ Same /\ Cardinality(tracker) = T.size /\ TrackerNames \subseteq {x[1] : x \in tracker}
    \* names and values asked of the tracker enumeration: whatever has an identifier maps back to it,
    \* the documented spellings have one, and values outside the enumeration have no name
    \/ Is("trackerParse") /\ Same /\ (T.name \in TrackerNames => T.out = "ok") /\ (T.out = "ok" => T.back = T.name)
    \/ Is("trackerPrint") /\ Same /\ IF T.id \in 0 .. (T.size - 1) THEN T.out = "ok" ELSE T.out = "error"
    \/ Is("typename") /\ Same /\ T.sym \in DOMAIN TypeNames /\ T.name = TypeNames[T.sym]
    \/ Is("matname") /\ Same /\ T.sym \in DOMAIN MatrixNames /\ T.name = MatrixNames[T.sym]
TraceSpec == TraceInit /\ [][TraceNext]_<<pairs, l, tracker>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
