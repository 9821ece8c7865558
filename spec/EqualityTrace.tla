----------------------------- MODULE EqualityTrace -----------------------------
EXTENDS Equality, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES held, l           \* the two operands
T == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
Operand(x) == [t |-> x.t, r |-> x.r, c |-> x.c, e |-> x.e]
None == [t |-> "", r |-> 0, c |-> 0, e |-> <<>>]
\* comparing changes neither operand; every answer follows from the contents
TCompare == /\ Is("eq") /\ IsOperand(Operand(T.a)) /\ IsOperand(Operand(T.b)) /\ Comparable(T.a.t, T.b.t)
            /\ held' = <<Operand(T.a), Operand(T.b)>>
            /\ T.out = "ok"
            /\ T.shown = [a |-> Operand(T.a), b |-> Operand(T.b)]
            /\ LET same == Equal(held'[1], held'[2]) IN
                 /\ T.eq = same /\ T.eqr = same /\ T.ne = ~same /\ T.ner = ~same
                 /\ T.selfa /\ T.selfb
TraceInit == held = <<None, None>> /\ l = 1
TraceNext == \/ Is("case") /\ held' = <<None, None>>
             \/ TCompare
TraceSpec == TraceInit /\ [][TraceNext]_<<held, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN
    IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED_AT", d>>) /\ FALSE
=============================================================================
