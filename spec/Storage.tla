-------------------------------- MODULE Storage --------------------------------
(* The containers that hold the elements of matrices, and who owns the memory.
   Kinds: "K" fixed size on the stack, "F" fixed size on the heap, "X" flexible,
   "I" flexible with integer elements, "M" a dense matrix of one column,
   "S" strided window on memory of the caller (always a proxy).
   A storage either owns its elements (e = 0, elements v) or is a proxy for
   memory of the caller (array e, from offset off, in nb runs of cs elements
   that are sep apart). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots, Fixed, Room       \* fixed size, elements of each array of the caller
VARIABLES slot, ext
svars == <<slot, ext>>
Arrays == {1, 2, 3}                \* the elements of the last one are integers
Unset == 0 - 1000000
Flexible == {"X", "I", "M"}
None == [k |-> "none", n |-> 0, e |-> 0, off |-> 0, cs |-> 0, nb |-> 0, sep |-> 0, v |-> <<>>]
Own(k, v) == [None EXCEPT !.k = k, !.n = Len(v), !.v = v]
Proxy(k, e, off, cs, nb, sep) == [None EXCEPT !.k = k, !.n = cs * nb, !.e = e, !.off = off, !.cs = cs, !.nb = nb, !.sep = sep]
\* moved from: to be assigned or dropped, nothing else is known
Gone(k) == [None EXCEPT !.k = "gone " \o k]
Is1(x, k) == x.k = k \/ x.k = "gone " \o k
Live(s) == slot[s].k \in {"K", "F", "X", "I", "M", "S"}
Usable(s, k) == slot[s].k = k
Unknown(n) == [p \in 1..n |-> Unset]
Zeros(n) == [p \in 1..n |-> 0]
\* ---- elements
Pos(x, p) == x.off + 1 + ((p - 1) \div x.cs) * (x.cs + x.sep) + ((p - 1) % x.cs)
Span(x) == IF x.n = 0 THEN 0 ELSE (x.nb * x.cs) + ((x.nb - 1) * x.sep)
Inside(x) == x.e # 0 => x.off >= 0 /\ x.off + Span(x) <= Room
Elements(x, mem) == IF x.e = 0 THEN x.v ELSE [p \in 1..x.n |-> mem[x.e][Pos(x, p)]]
Read(s) == Elements(slot[s], ext)
IndexAt(x, q) == CHOOSE p \in 1..x.n : Pos(x, p) = q
\* the elements of s are overwritten where they are
Overwrite(s, w) ==
    IF slot[s].e = 0 THEN slot' = [slot EXCEPT ![s].v = w] /\ UNCHANGED ext
    ELSE /\ UNCHANGED slot
         /\ ext' = [ext EXCEPT ![slot[s].e] = [q \in DOMAIN ext[slot[s].e] |->
                IF \E p \in 1..slot[s].n : Pos(slot[s], p) = q THEN w[IndexAt(slot[s], q)] ELSE ext[slot[s].e][q]]]
Put(s, x) == slot' = [slot EXCEPT ![s] = x] /\ UNCHANGED ext
Refused == UNCHANGED svars
SInit == slot = [s \in Slots |-> None] /\ ext = [e \in Arrays |-> [q \in 1..Room |-> (100 * e) + q]]
\* ---- construction
Default(k, n) == IF k = "K" THEN Own(k, Zeros(Fixed)) ELSE IF k = "F" THEN Own(k, Unknown(Fixed)) ELSE IF k = "S" THEN None ELSE Own(k, Unknown(n))
New(d, k, n) == k # "S" /\ Put(d, Default(k, n))
ListFits(k, w) == IF k = "K" THEN Len(w) <= Fixed ELSE IF k = "F" THEN Len(w) = Fixed ELSE k = "M" => Len(w) > 0
FromList(d, k, w, ok) ==
    /\ k # "S" /\ ok = ListFits(k, w)
    /\ IF ok THEN Put(d, Own(k, IF k = "K" THEN w \o Zeros(Fixed - Len(w)) ELSE w)) ELSE Refused
Over(d, k, e, off, n) == /\ k \in {"F", "X", "I", "M"} /\ (k = "F" => n = Fixed) /\ (k = "I" <=> e = 3)
    /\ LET x == Proxy(k, e, off, n, 1, 0) IN Inside(x) /\ Put(d, x)
Strided(d, e, off, cs, nb, sep) == e # 3 /\ LET x == Proxy("S", e, off, cs, nb, sep) IN Inside(x) /\ Put(d, x)
\* a copy owns its elements, a strided window is only copied as a window
Copy(d, a) == Live(a) /\ Put(d, IF slot[a].k = "S" THEN slot[a] ELSE Own(slot[a].k, Read(a)))
Convert(d, k, a, ok) ==
    /\ Live(a) /\ k \in {"F", "X", "I"} /\ k # slot[a].k /\ slot[a].k # "M" /\ ok = (k = "F" => slot[a].n = Fixed)
    /\ IF ok THEN Put(d, Own(k, Read(a))) ELSE Refused
\* the elements, or the proxy, change hands
MovedFrom(k, x) == IF k \in {"X", "I"} THEN Own(k, <<>>) ELSE IF k \in {"K", "S"} THEN x ELSE Gone(k)
Move(d, a) == /\ Live(a) /\ d # a
    /\ slot' = [slot EXCEPT ![d] = slot[a], ![a] = MovedFrom(slot[a].k, slot[a])] /\ UNCHANGED ext
\* ---- assignment. Fixed sizes are overwritten in place, flexible storages take over ownership or the proxy
Assign(a, b) ==
    /\ Live(b) /\ Is1(slot[a], slot[b].k)
    /\ IF a = b THEN Refused
       ELSE IF slot[b].k \in {"K", "F"} THEN Live(a) /\ Overwrite(a, Read(b))
       ELSE Put(a, IF slot[b].e = 0 THEN Own(slot[b].k, Read(b)) ELSE slot[b])
MoveAssign(a, b) ==
    /\ Live(b) /\ Is1(slot[a], slot[b].k)
    /\ IF a = b THEN Refused
       ELSE IF slot[b].k = "K" THEN Live(a) /\ Overwrite(a, Read(b))
       ELSE slot' = [slot EXCEPT ![a] = slot[b], ![b] = MovedFrom(slot[b].k, slot[b])] /\ UNCHANGED ext
Swap(a, b) == /\ Live(a) /\ Live(b) /\ slot[a].k = slot[b].k
    /\ slot' = [slot EXCEPT ![a] = slot[b], ![b] = slot[a]] /\ UNCHANGED ext
\* ---- change of size: the elements of a larger or smaller storage are not known
Resize(a, n, ok) ==
    /\ Live(a) /\ slot[a].k \in Flexible /\ ok = (slot[a].e = 0 \/ n = slot[a].n)
    /\ IF n = slot[a].n \/ ~ok THEN Refused ELSE Put(a, Own(slot[a].k, Unknown(n)))
Shrink(a, n, ok) ==
    /\ Live(a) /\ slot[a].k \in {"X", "I"} /\ ok = (n <= slot[a].n)
    /\ IF ~ok THEN Refused
       ELSE IF slot[a].e = 0 THEN Put(a, Own(slot[a].k, SubSeq(slot[a].v, 1, n)))
       ELSE Put(a, [slot[a] EXCEPT !.n = n, !.cs = n])
Fill(a, x) == Live(a) /\ slot[a].k \in Flexible /\ Overwrite(a, [p \in 1..slot[a].n |-> x])
Store(a, p, x) == Live(a) /\ p \in 1..slot[a].n /\ Overwrite(a, [Read(a) EXCEPT ![p] = x])
Drop(a) == slot[a].k # "none" /\ Put(a, None)
\* ---- comparison of elements that are known
Known(w) == \A p \in DOMAIN w : w[p] # Unset
Compare(a, b, r) == /\ Live(a) /\ Live(b) /\ slot[a].k # "S" /\ slot[b].k # "S" /\ (slot[a].k = "M") = (slot[b].k = "M") 
    /\ (Known(Read(a)) /\ Known(Read(b)) => r = (Read(a) = Read(b))) /\ Refused
\* the same elements in the same place
Place(x) == [e |-> x.e, off |-> x.off, cs |-> x.cs, nb |-> x.nb, sep |-> x.sep, n |-> x.n]
Identical(a, b, r) == /\ Live(a) /\ Live(b) /\ slot[a].k = slot[b].k /\ slot[a].k # "K" /\ slot[a].n > 0 /\ slot[b].n > 0
    /\ r = (a = b \/ (slot[a].e # 0 /\ Place(slot[a]) = Place(slot[b]))) /\ Refused
\* saved and loaded again: a flexible storage owns what was loaded, a fixed one is overwritten
Reload(d, a) == /\ Live(a) /\ Live(d) /\ slot[a].k = slot[d].k /\ slot[a].k \in {"F", "X", "I"}
    /\ IF slot[a].k = "F" THEN Overwrite(d, Read(a)) ELSE Put(d, Own(slot[a].k, Read(a)))
\* the elements in order, forwards and backwards
Agree(w, x) == Len(w) = Len(x) /\ \A p \in DOMAIN w : w[p] = Unset \/ w[p] = x[p]
Visit(a, f, g) == Live(a) /\ Agree(Read(a), f) /\ g = [p \in 1..slot[a].n |-> f[slot[a].n + 1 - p]] /\ Refused
\* ---- buffers: owned elements need one each, an empty or moved-from storage may keep one
Heap(k) == k \in {"F", "X", "I", "M", "gone F", "gone M"}
Needed == Cardinality({s \in Slots : Live(s) /\ Heap(slot[s].k) /\ slot[s].e = 0 /\ slot[s].n > 0})
Allowed == Cardinality({s \in Slots : Heap(slot[s].k) /\ slot[s].e = 0})
\* ---- checked
Consistent == \A s \in Slots : Live(s) => /\ Inside(slot[s]) /\ Len(Read(s)) = slot[s].n
    /\ (slot[s].k \in {"K", "F"} => slot[s].n = Fixed)
    /\ (slot[s].k = "S" => slot[s].e # 0)
    /\ (slot[s].k = "K" => slot[s].e = 0)
=============================================================================
