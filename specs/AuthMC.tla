------------------------------- MODULE AuthMC -------------------------------
EXTENDS Auth
CONSTANT MaxForged
VARIABLE nf
Init == AInit /\ nf = 0
Next == \/ \E id \in Genuine, v \in {"mux", "task"} : Ask(id, v) /\ UNCHANGED nf
        \/ nf < MaxForged /\ (\E id \in Ids, k \in {"req", "rep"}, to \in Parties : Forge(id, k, to)) /\ nf' = nf + 1
        \/ \E m \in net : Deliver(m) /\ UNCHANGED nf
Spec == Init /\ [][Next]_<<avars, nf>> /\ WF_avars(\E m \in net : Deliver(m))
Settles == <>[](net = {})
=============================================================================
