------------------------------- MODULE FileIOTrace -------------------------------
(* Binds recorded histories of saving and loading to FileIO. *)
EXTENDS FileIO, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Order == <<"a", "b", "c">>
Id(f) == T.ids[CHOOSE k \in DOMAIN Order : Order[k] = f]
IdAt(f) == IF f \in Files THEN Id(f) ELSE 0
\* every file keeps its bytes unless the step gives it new ones; every object is what the specification says
Shown ==
    /\ ~T.stray /\ T.sound
    /\ \A f \in Files : Id(f) = disk'[f].id
    /\ {T.slots[k].s : k \in DOMAIN T.slots} = {s \in Slots : objs'[s].kind # ""}
    /\ \A k \in DOMAIN T.slots : LET x == T.slots[k] o == objs'[x.s] IN
         x.kind = o.kind /\ x.r = o.r /\ x.c = o.c /\ x.n = o.n /\ x.fresh
TMake == Is("make") /\ Make(T.s, Object(T.kind, T.r, T.c, T.n))
TDrop == Is("drop") /\ Drop(T.s)
TEnd == Is("end") /\ DropAll /\ T.live = 0
TWrite == /\ Is("write") /\ T.f \in Places /\ Write(T.s, T.f, T.fmt, T.name, T.over, IdAt(T.f))
          /\ Failing(T.f, T.over) <=> T.err # ""
          /\ Refused(T.f, T.over) => T.err = "refused"
TRead == Is("read") /\ T.f \in Places /\ Read(T.s, T.f, T.fmt, T.name, T.err = "") /\ (~Exists(T.f) => T.err = "refused")
TJunk == Is("junk") /\ PutJunk(T.f, Id(T.f))
TCut == Is("cut") /\ CutFile(T.f, Id(T.f))
TRemove == Is("remove") /\ Remove(T.f)
TDuplicate == Is("duplicate") /\ Duplicate(T.f, T.g)
TraceInit == FInit /\ l = 1
TraceNext ==
    \/ Is("case") /\ disk' = [f \in Files |-> Absent] /\ objs' = [s \in Slots |-> NoObject]
    \/ (TMake \/ TDrop \/ TEnd \/ TWrite \/ TRead \/ TJunk \/ TCut \/ TRemove \/ TDuplicate) /\ Shown
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
