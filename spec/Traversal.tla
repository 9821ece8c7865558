------------------------------- MODULE Traversal -------------------------------
(* Iterators and cursors over memory. An object addresses a part of the memory:
   a range of blocks with gaps between them, or a matrix (also a window of one).
   A place is a position of an iterator or cursor in the line of elements it
   walks: 0 .. n-1 are the elements, n is behind the last, -1 before the first.
   Stepping moves by one position, reading and writing concern exactly the
   element at the position. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Places            \* memory is addressed 0..N-1
VARIABLES mem, obj, at
vars == <<mem, obj, at>>
\* ---- objects
NoObj == [k |-> "", start |-> 0, r |-> 0, c |-> 0, ld |-> 0, row |-> FALSE]
\* nb blocks of cs elements, sep elements between two blocks
Range(start, cs, nb, sep) == [k |-> "range", start |-> start, r |-> cs, c |-> nb, ld |-> cs + sep, row |-> FALSE]
MatrixOn(start, r, c, row) == [k |-> "matrix", start |-> start, r |-> r, c |-> c, ld |-> IF row THEN c ELSE r, row |-> row]
Inside(o, r0, c0, r, c) == r0 + r <= o.r /\ c0 + c <= o.c
WindowOn(o, r0, c0, r, c) == [o EXCEPT !.k = "window", !.start = o.start + (IF o.row THEN r0 * o.ld + c0 ELSE r0 + c0 * o.ld), !.r = r, !.c = c]
Address(o, i, j) == o.start + (IF o.row THEN i * o.ld + j ELSE i + j * o.ld)
Size(o) == o.r * o.c
\* element k in the order of the memory
Nth(o, k) == IF o.row THEN Address(o, k \div o.c, k % o.c) ELSE Address(o, k % o.r, k \div o.r)
\* ---- places. Lines: all elements in memory order; the rows or columns; the elements of one row or column
NoPlace == [k |-> "", dir |-> "", line |-> 0, pos |-> 0]
Iterator(pos) == [k |-> "iter", dir |-> "", line |-> 0, pos |-> pos]
Outer(dir, pos) == [k |-> "outer", dir |-> dir, line |-> 0, pos |-> pos]
Inner(dir, line, pos) == [k |-> "inner", dir |-> dir, line |-> line, pos |-> pos]
\* Row, Column, and the directions named after the order of the memory
IsRow(o, dir) == dir = "Row" \/ (dir = "Major" /\ ~o.row) \/ (dir = "Minor" /\ o.row)
Length(p) ==
    CASE p.k = "iter" -> Size(obj)
      [] p.k = "outer" -> IF IsRow(obj, p.dir) THEN obj.r ELSE obj.c
      [] p.k = "inner" -> IF IsRow(obj, p.dir) THEN obj.r ELSE obj.c       \* dir: the direction of the steps
Element(p) == p.k \in {"iter", "inner"} /\ p.pos \in 0..(Length(p) - 1)
Where(p) == IF p.k = "iter" THEN Nth(obj, p.pos)
            ELSE IF IsRow(obj, p.dir) THEN Address(obj, p.pos, p.line) ELSE Address(obj, p.line, p.pos)
\* ---- actions
TInit(v) == mem = v /\ obj = NoObj /\ at = [s \in Places |-> NoPlace]
Fresh == at' = [s \in Places |-> NoPlace]
Take(o) == obj' = o /\ Fresh /\ UNCHANGED mem
Window(r0, c0, r, c) == Inside(obj, r0, c0, r, c) /\ Take(WindowOn(obj, r0, c0, r, c))
Set(s, p) == at' = [at EXCEPT ![s] = p] /\ UNCHANGED <<mem, obj>>
Start(from) == CASE from = "begin" -> 0 [] from = "end" -> Size(obj) [] from = "rbegin" -> Size(obj) - 1 [] from = "rend" -> -1
Iterate(s, from) == obj.k # "" /\ Set(s, Iterator(Start(from)))
PlaceOuter(s, dir, pos) == obj.k \in {"matrix", "window"} /\ pos \in 0..Length(Outer(dir, pos)) /\ Set(s, Outer(dir, pos))
Cross(o, dir, dir2) == IsRow(o, dir) # IsRow(o, dir2)
PlaceInner(s, a, dir, from) ==
    /\ at[a].k = "outer" /\ at[a].pos \in 0..(Length(at[a]) - 1) /\ Cross(obj, at[a].dir, dir)
    /\ LET p == Inner(dir, at[a].pos, 0) IN Set(s, IF from = "begin" THEN p ELSE [p EXCEPT !.pos = Length(p)])
CopyPlace(s, a) == at[a].k # "" /\ Set(s, at[a])
\* an object without elements has nothing to step over: its iterators stay
Steps(p) == p.k # "" /\ (p.k = "iter" => Size(obj) > 0)
Forward(s) == Steps(at[s]) /\ at[s].pos < Length(at[s]) /\ Set(s, [at[s] EXCEPT !.pos = @ + 1])
Lowest(p) == IF p.k = "iter" /\ obj.k # "matrix" THEN -1 ELSE 0          \* only ranges and windows offer a place before the first
Backward(s) == Steps(at[s]) /\ at[s].pos > Lowest(at[s]) /\ Set(s, [at[s] EXCEPT !.pos = @ - 1])
Read(s) == Element(at[s]) /\ UNCHANGED vars
Write(s, v) == Element(at[s]) /\ mem' = [mem EXCEPT ![Where(at[s]) + 1] = v] /\ UNCHANGED <<obj, at>>
Comparable(p, q) == p.k # "" /\ p.k = q.k /\ p.dir = q.dir /\ p.line = q.line
\* every element of the object in memory order: filling through the object
Covered(o) == {Address(o, i, j) : i \in 0..(o.r - 1), j \in 0..(o.c - 1)}
Fill(v) == mem' = [k \in 1..N |-> IF k - 1 \in Covered(obj) THEN v ELSE mem[k]] /\ UNCHANGED <<obj, at>>
=============================================================================
