------------------------------ MODULE MappingMC ------------------------------
EXTENDS Mapping, Json, TLC
CONSTANTS MaxN, MaxQ, MaxLim, Gen
VARIABLES z, bad, hist
mcvars == <<z, bad, hist>>
ASSUME \A n \in 0..(2 * MaxN + 3), q \in 1..MaxQ, d \in {"b", "r"} : DealtOk(d, n, q)
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Init == \E n \in 0..MaxN, lim \in 0..MaxLim, o \in BOOLEAN, rx \in BOOLEAN : \E b \in SUBSET (1..n) :
  /\ z = NewLazy(n, lim, o, rx) /\ bad = b
  /\ hist = <<>>
Take == z.taken < z.n /\ CanTake(z) /\ z' = TakeEff(z) /\ UNCHANGED bad /\ Log([k |-> "net"])
Exhaust == z.taken = z.n /\ CanTake(z) /\ z' = ExhaustEff(z) /\ UNCHANGED bad /\ Log([k |-> "net"])
Fin == \E i \in 1..z.taken : i \notin z.fin /\ z' = FinEff(z, i) /\ UNCHANGED bad /\ Log([k |-> "net"])
Yield == \E i \in 1..z.taken : CanYield(z, i) /\ z' = (IF i \in bad /\ ~z.rx THEN EndEff(YieldEff(z, i)) ELSE YieldEff(z, i)) /\ UNCHANGED bad /\ Log([k |-> "next"])
Cancel == ~z.stopped /\ z' = StopEff(z) /\ UNCHANGED bad /\ Log([k |-> "cancel"])
End == ~z.ended /\ CanEnd(z) /\ z' = EndEff(z) /\ UNCHANGED bad /\ Log([k |-> "next"])
Next == Take \/ Exhaust \/ Fin \/ Yield \/ Cancel \/ End
Fair == WF_mcvars(Take) /\ WF_mcvars(Exhaust) /\ WF_mcvars(Fin) /\ WF_mcvars(Yield) /\ WF_mcvars(End)
Idle == z.ended /\ UNCHANGED mcvars
Spec == Init /\ [][Next \/ Idle]_mcvars /\ Fair
Bounded == z.lim > 0 => z.taken - Cardinality(z.fin) <= z.lim
Once == Cardinality(Yielded(z)) = Len(z.out)
InOrder == z.ordered => \A i \in DOMAIN z.out : z.out[i] = i
Complete == (z.ended /\ ~z.rx /\ Yielded(z) \cap bad = {}) => Yielded(z) = 1..z.taken
NoneSkipped == (z.ended /\ z.exhausted /\ (z.rx \/ bad = {})) => z.taken = z.n /\ Len(z.out) = z.n
Ends == <>(z.ended)
Emit == (Gen /\ z.ended /\ z.taken >= MinOf(3, z.n)) =>
  PrintT("SCRIPT " \o ToJson([n |-> z.n, lim |-> z.lim, ordered |-> z.ordered, rx |-> z.rx, bad |-> [i \in 1..z.n |-> i \in bad], ops |-> hist]) \o " TPIRCS")
=============================================================================
