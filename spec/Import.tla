--------------------------------- MODULE Import ---------------------------------
(* Importing matrices. A data file holds the numbers 1, 2, ...; a descriptor
   names a data file and a window of the column-major matrix that file holds, a
   list (text descriptor) names a data file and the dimensions. An import either
   gives exactly the described elements or is an error that changes nothing. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots
VARIABLES files, slot, sets
vars == <<files, slot, sets>>
NoMatrix == [r |-> -1, c |-> -1, e |-> <<>>]
Mat(r, c, e) == [r |-> r, c |-> c, e |-> e]
Ramp(r, c, v) == Mat(r, c, [k \in 1..(r * c) |-> v + k - 1])
Data(n) == [k |-> "data", n |-> n, data |-> "", v |-> <<>>, is |-> <<>>, flaw |-> ""]
\* a long file that is zero except for some ranges: first position and number of elements of each
Hollow(n, ranges) == [Data(n) EXCEPT !.v = ranges]
Desc(k, data, flaw, v, is) == [k |-> k, n |-> 0, data |-> data, v |-> v, is |-> is, flaw |-> flaw]
Known(f) == f \in DOMAIN files
\* fields of a window: rows, columns, leading dimensions, offsets; a missing one is zero
Window(d) == [r |-> d.v[1], c |-> d.v[2], lr |-> d.v[3], lc |-> d.v[4], ro |-> d.v[5], co |-> d.v[6]]
Listed(d) == [r |-> d.v[1], c |-> d.v[2], lr |-> d.v[1], lc |-> d.v[2], ro |-> 0, co |-> 0]
Inside(w) == w.ro + w.r <= w.lr /\ w.co + w.c <= w.lc
Natural(w) == w.r >= 0 /\ w.c >= 0 /\ w.lr >= 0 /\ w.lc >= 0 /\ w.ro >= 0 /\ w.co >= 0
Empty(w) == w.r = 0 \/ w.c = 0
\* position of an element in the data file, the number of elements needed
At(w, i, j) == (w.co + j) * w.lr + w.ro + i
Needed(w) == IF Empty(w) THEN 0 ELSE At(w, w.r - 1, w.c - 1) + 1
Number(d, p) == IF d.v = <<>> THEN p + 1
                ELSE IF \E i \in 1..(Len(d.v) \div 2) : p >= d.v[2 * i - 1] /\ p < d.v[2 * i - 1] + d.v[2 * i] THEN (p % 9973) + 1 ELSE 0
Contents(d, w) == Mat(w.r, w.c, [k \in 1..(w.r * w.c) |-> Number(d, At(w, (k - 1) % w.r, (k - 1) \div w.r))])
\* descriptors that can not be understood: flawed text, a field that is no number; a list must be complete
Understood(d) ==
    /\ d.flaw = "none" /\ \A k \in DOMAIN d.is : d.is[k] # "bad"
    /\ d.k = "list" => (\A k \in DOMAIN d.is : d.is[k] = "number") /\ d.data # "-"
Of(d) == IF d.k = "list" THEN Listed(d) ELSE Window(d)
Size(f) == IF Known(f) /\ files[f].k = "data" THEN files[f].n ELSE -1
Fits(d) == /\ Understood(d) /\ Size(d.data) >= 0
           /\ LET w == Of(d) IN Natural(w) /\ Inside(w) /\ Needed(w) <= Size(d.data)
\* the data file may be larger or smaller than described as long as it holds the window: that may be an error.
\* negative dimensions of an empty window are left open
MayFail(d) == ~Fits(d) \/ Size(d.data) # Of(d).lr * Of(d).lc
Open(d) == Understood(d) /\ ~Natural(Of(d)) /\ Empty(Of(d))
IInit == files = <<>> /\ slot = [s \in Slots |-> NoMatrix] /\ sets = <<>>
With(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]
Put(f, x) == files' = With(files, f, x) /\ UNCHANGED <<slot, sets>>
Remove(f) == files' = [x \in DOMAIN files \ {f} |-> files[x]] /\ UNCHANGED <<slot, sets>>
Make(s, m) == slot' = [slot EXCEPT ![s] = m] /\ UNCHANGED <<files, sets>>
Fitting(f) == Known(f) /\ files[f].k \in {"descriptor", "list"} /\ Fits(files[f])
Import(s, f, ok) ==
    /\ slot[s] # NoMatrix /\ UNCHANGED <<files, sets>>
    /\ IF ok THEN Fitting(f) /\ slot' = [slot EXCEPT ![s] = Contents(files[files[f].data], Of(files[f]))]
       ELSE (IF Fitting(f) THEN MayFail(files[f]) ELSE TRUE) /\ UNCHANGED slot
\* an import whose descriptor leaves the result open (negative dimensions without elements)
Undecided(f) == Known(f) /\ files[f].k \in {"descriptor", "list"} /\ Open(files[f])
\* ---- sets of matrices: entries name matrices by their kind
Band(n, b, v) == Mat(n, n, [k \in 1..(n * n) |-> LET i == (k - 1) % n j == (k - 1) \div n IN IF (IF i > j THEN i - j ELSE j - i) < b THEN v ELSE 0])
Bands(e) == [k \in 1..(Len(e.dims) * Len(e.bands)) |-> Band(e.dims[(k - 1) \div Len(e.bands) + 1], e.bands[((k - 1) % Len(e.bands)) + 1], e.v)]
Lst(g, n) == IF n \in DOMAIN g THEN g[n] ELSE <<>>
Bad == [x \in {"!"} |-> <<>>]
Add(g, e) ==
    CASE e.kind = "DiagonalBand" -> IF Len(e.dims) * Len(e.bands) = 0 THEN g ELSE With(g, e.name, Lst(g, e.name) \o Bands(e))
      [] e.kind = "EqualTo" -> IF e.arg \in DOMAIN g THEN With(g, e.name, g[e.arg]) ELSE Bad
      [] e.kind = "File" -> IF Fitting(e.arg) /\ files[e.arg].k = "descriptor" THEN With(g, e.name, Append(Lst(g, e.name), Contents(files[files[e.arg].data], Of(files[e.arg])))) ELSE Bad
      [] OTHER -> Bad
RECURSIVE Collect(_, _)
Collect(g, es) == IF g = Bad \/ es = <<>> THEN g ELSE Collect(Add(g, es[1]), Tail(es))
Provided(es) == Collect(<<>>, es)
Provide(es, ok) ==
    /\ UNCHANGED <<files, slot>>
    /\ IF ok THEN Provided(es) # Bad /\ sets' = Provided(es)
       ELSE /\ Provided(es) = Bad \/ \E k \in DOMAIN es : es[k].kind = "File" /\ Fitting(es[k].arg) /\ MayFail(files[es[k].arg])
            /\ UNCHANGED sets
Get(n, ok) == UNCHANGED vars /\ (ok <=> n \in DOMAIN sets)
=============================================================================
