--------------------------------- MODULE FileIO ---------------------------------
(* Saving objects to files and loading them. A file is absent, holds an archive
   of one object, holds something else (junk) or a part of an archive (cut). Two
   places can never be written: "lost" lies in a directory that does not exist,
   "full" is an existing device without space. The bytes of a file are an
   identity that a write may choose and nothing else may change. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Files, Slots
VARIABLES disk, objs
vars == <<disk, objs>>
Places == Files \cup {"lost", "full"}
NoObject == [kind |-> "", r |-> 0, c |-> 0, n |-> <<>>]
Unknown == [NoObject EXCEPT !.kind = "unknown"]          \* after a load that failed half way
Object(kind, r, c, n) == [kind |-> kind, r |-> r, c |-> c, n |-> n]
Formats == {"xml", "bin"}
Offers(kind) == IF kind \in {"rec", "path"} THEN Formats ELSE {"bin"}
Absent == [st |-> "absent", fmt |-> "", name |-> "", o |-> NoObject, id |-> 0]
Archive(fmt, name, o, id) == [st |-> "archive", fmt |-> fmt, name |-> name, o |-> o, id |-> id]
Junk(id) == [Absent EXCEPT !.st = "junk", !.id = id]
Cut(d, id) == [d EXCEPT !.st = IF d.st = "archive" THEN "cut" ELSE d.st, !.id = id]
Exists(f) == IF f = "full" THEN TRUE ELSE IF f = "lost" THEN FALSE ELSE disk[f].st # "absent"
FInit == disk = [f \in Files |-> Absent] /\ objs = [s \in Slots |-> NoObject]
Known(s) == objs[s].kind \notin {"", "unknown"}
Make(s, o) == objs' = [objs EXCEPT ![s] = o] /\ UNCHANGED disk
Drop(s) == objs[s].kind # "" /\ Make(s, NoObject)
DropAll == objs' = [s \in Slots |-> NoObject] /\ UNCHANGED disk
\* what a write does: refused without overwriting, failing at a place that cannot be written, or done
Refused(f, over) == ~over /\ Exists(f)
Failing(f, over) == Refused(f, over) \/ f \in {"lost", "full"}
Write(s, f, fmt, name, over, id) ==
    /\ Known(s) /\ fmt \in Offers(objs[s].kind)
    /\ disk' = IF Failing(f, over) THEN disk ELSE [disk EXCEPT ![f] = Archive(fmt, name, objs[s], id)]
    /\ UNCHANGED objs
\* a load needs an object of the kind that was saved; kinds are only compared where an archive is found
Admissible(s, f, fmt) ==
    /\ objs[s].kind # ""
    /\ f \in Files /\ disk[f].st \in {"archive", "cut"} /\ objs[s].kind # "unknown" => objs[s].kind = disk[f].o.kind
Readable(f, fmt) == f \in Files /\ disk[f].st = "archive" /\ disk[f].fmt = fmt
\* the name in the file need not agree: a different one may be an error, but never gives another object
MayFail(f, fmt, name) == IF Readable(f, fmt) THEN fmt = "xml" /\ disk[f].name # name ELSE TRUE
MaySucceed(f, fmt) == f \in Files /\ disk[f].st \in {"archive", "cut"} /\ disk[f].fmt = fmt
Read(s, f, fmt, name, ok) ==
    /\ objs[s].kind # "" /\ UNCHANGED disk
    /\ IF ok THEN MaySucceed(f, fmt) /\ objs' = [objs EXCEPT ![s] = disk[f].o]
       ELSE /\ MayFail(f, fmt, name)
            /\ objs' = IF Exists(f) THEN [objs EXCEPT ![s] = Unknown] ELSE objs
PutJunk(f, id) == f \in Files /\ disk' = [disk EXCEPT ![f] = Junk(id)] /\ UNCHANGED objs
CutFile(f, id) == f \in Files /\ Exists(f) /\ disk' = [disk EXCEPT ![f] = Cut(@, id)] /\ UNCHANGED objs
Remove(f) == f \in Files /\ disk' = [disk EXCEPT ![f] = Absent] /\ UNCHANGED objs
Duplicate(f, g) == f \in Files /\ g \in Files /\ Exists(f) /\ disk' = [disk EXCEPT ![g] = disk[f]] /\ UNCHANGED objs
=============================================================================
