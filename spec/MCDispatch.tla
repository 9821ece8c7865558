---------------------------- MODULE MCDispatch ----------------------------
EXTENDS Dispatch, TLC, Json
Lists == << <<0>>, <<3>>, <<0,1>>, <<4,2>>, <<0,1,2>>, <<2,0,5>>, <<3,1,0,2>> >>
Universe == {0,1,2,3}
VARIABLE which
MInit == \E i \in DOMAIN Lists, d \in 1..2, w1 \in SUBSET Universe, w2 \in SUBSET Universe :
    /\ d = 1 => w2 = {}
    /\ which = i /\ Start(Lists[i], d, w1, w2)
MNext == Step /\ UNCHANGED which
MSpec == MInit /\ [][MNext]_<<dvars, which>> /\ WF_<<dvars, which>>(MNext)
SetToSeq4(S) == SelectSeq(<<0,1,2,3>>, LAMBDA x : x \in S)
Emit == result # "running" => PrintT("@@" \o ToJson(<<which, dims, SetToSeq4(want1), SetToSeq4(want2)>>))
===========================================================================
