-------------------------------- MODULE MCFileIO --------------------------------
(* All histories of a few steps with two objects of one kind and two files. The
   specification decides of each step whether it has to fail; the properties are
   stated about the history. *)
EXTENDS FileIO, Json, TLC
CONSTANTS MaxLen, Wide
VARIABLES hist
mvars == <<vars, hist>>
Old == Object("rec", 0, 0, <<1>>)
New == Object("rec", 0, 0, <<2>>)
F2 == {"a", "b"}
E0 == [a |-> "", s |-> "", f |-> "", g |-> "", fmt |-> "", over |-> FALSE, name |-> ""]
Rd(s, f, fmt, ok) == Read(s, f, fmt, "n", ok) /\ hist' = Append(hist, [E0 EXCEPT !.a = "read", !.s = s, !.f = f, !.fmt = fmt, !.name = IF ok THEN "ok" ELSE "err"])
MCInit == disk = [f \in Files |-> Absent] /\ objs = [s \in Slots |-> IF s = "x" THEN Old ELSE IF s = "y" THEN New ELSE NoObject] /\ hist = <<>>
Fmts == IF Wide THEN Formats ELSE {"bin"}
Step ==
    \/ \E s \in {"x", "y"}, f \in F2 \cup {"lost", "full"}, fmt \in Fmts, over \in BOOLEAN :
         Write(s, f, fmt, "n", over, Len(hist) + 1) /\ hist' = Append(hist, [E0 EXCEPT !.a = "write", !.s = s, !.f = f, !.fmt = fmt, !.over = over, !.name = IF Failing(f, over) THEN "err" ELSE "ok"])
    \/ \E f \in F2 \cup {"lost"}, fmt \in Fmts, ok \in BOOLEAN : Rd("y", f, fmt, ok)
    \/ \E f \in F2 : PutJunk(f, Len(hist) + 1) /\ hist' = Append(hist, [E0 EXCEPT !.a = "junk", !.f = f])
    \/ \E f \in F2 : CutFile(f, Len(hist) + 1) /\ hist' = Append(hist, [E0 EXCEPT !.a = "cut", !.f = f])
    \/ \E f \in F2 : Exists(f) /\ Remove(f) /\ hist' = Append(hist, [E0 EXCEPT !.a = "remove", !.f = f])
    \/ Exists("a") /\ Duplicate("a", "b") /\ hist' = Append(hist, [E0 EXCEPT !.a = "duplicate", !.f = "a", !.g = "b"])
MCNext == Len(hist) < MaxLen /\ Step
Spec == MCInit /\ [][MCNext]_mvars
\* a loaded object is one that was saved
Genuine == objs["y"] \in {Old, New, Unknown}
\* protected files: a refused write changes nothing (the action property below); a file is present exactly if it was written and not removed since
Protected == [][\A f \in Files : disk[f].st # "absent" /\ disk'[f] # disk[f] => hist'[Len(hist')].a # "read" /\ (hist'[Len(hist')].a = "write" => hist'[Len(hist')].over)]_mvars
ReadOnly == [][hist' # hist /\ hist'[Len(hist')].a # "read" => objs' = objs]_mvars
Missing == [][hist' # hist /\ hist'[Len(hist')].a = "read" /\ ~Exists(hist'[Len(hist')].f) => objs' = objs /\ hist'[Len(hist')].name = "err"]_mvars
\* what was written last and left alone reads back
RoundTrip == \A k \in 1..(Len(hist) - 1) :
    hist[k].a = "write" /\ hist[k].name = "ok" /\ hist[k + 1].a = "read" /\ hist[k + 1].f = hist[k].f /\ hist[k + 1].fmt = hist[k].fmt => hist[k + 1].name = "ok"
Interesting == \E k \in DOMAIN hist : hist[k].a \in {"read", "write"}
Emit == Len(hist) = MaxLen /\ Interesting => PrintT("@@" \o ToJson(hist))
=============================================================================
