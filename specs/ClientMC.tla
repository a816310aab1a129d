------------------------------ MODULE ClientMC ------------------------------
(* One client, engines with first-in-first-out queues, a pool of load balanced calls, replies and notices in
   flight.  Engines die at any moment; their last replies may come before or after the notice of their death. *)
EXTENDS Client, Json, TLC
CONSTANTS Engines, MaxF, MaxKill, Gen
VARIABLES q,      \* engine -> calls waiting there
          pool,   \* load balanced calls not yet assigned
          back,   \* replies in flight, by engine
          notes,  \* engines whose death the client has not been told
          kills, hist
mcvars == <<clVars, q, pool, back, notes, kills, hist>>
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
EngSeq == SetToSortSeq(Engines, LAMBDA x, y : x < y)
Init == /\ fut = <<>> /\ res = <<>> /\ runs = <<>> /\ abreq = {}
        /\ eng = [e \in Engines |-> "up"] /\ table = [c \in {1} |-> {<<e, e>> : e \in Engines}]
        /\ idOf = [e \in Engines |-> [id |-> e, early |-> TRUE]]
        /\ q = [e \in Engines |-> <<>>] /\ pool = {} /\ back = [e \in Engines |-> <<>>] /\ notes = {} /\ kills = 0 /\ hist = <<>>
Rec(es, any, how) == [c |-> 1, es |-> es, any |-> any, coal |-> <<>>, dep |-> FALSE, deps |-> {}, k |-> Len(fut), retries |-> 0,
                      mode |-> (IF any THEN "lb" ELSE "direct"), how |-> how, func |-> "apply"]
Known == {p[2] : p \in table[1]}
\* one call for each engine of a set
SubDirect == \E S \in SUBSET Known, how \in {"ok", "fail"}, m \in {"direct", "bcast"} :
  LET s == SetToSortSeq(S, LAMBDA x, y : x < y) n == Len(fut) IN
  /\ S # {} /\ n + Len(s) <= MaxF
  /\ SubEff([i \in DOMAIN s |-> Rec({s[i]}, FALSE, how)])
  /\ q' = [e \in Engines |-> IF e \in S /\ eng[e] = "up" THEN Append(q[e], n + (CHOOSE i \in DOMAIN s : s[i] = e)) ELSE q[e]]
  /\ UNCHANGED <<eng, table, idOf, abreq, pool, back, notes, kills>> /\ Log([k |-> "sub", mode |-> m, es |-> s, how |-> how])
SubLb == \E how \in {"ok", "fail"} :
  /\ Known # {} /\ Len(fut) < MaxF /\ SubEff(<<Rec({}, TRUE, how)>>) /\ pool' = pool \cup {Len(fut) + 1}
  /\ UNCHANGED <<eng, table, idOf, abreq, q, back, notes, kills>> /\ Log([k |-> "sub", mode |-> "lb", es |-> <<>>, how |-> how])
Assign == \E f \in pool, e \in UpEngines :
  /\ pool' = pool \ {f} /\ q' = [q EXCEPT ![e] = Append(@, f)]
  /\ UNCHANGED <<clVars, back, notes, kills>> /\ Log([k |-> "net"])
Exec == \E e \in UpEngines :
  /\ q[e] # <<>>
  /\ LET f == Head(q[e]) t == Len(runs[f]) + 10 * f IN
     /\ RunEff(f, [e |-> e, tok |-> t, how |-> fut[f].how, out |-> <<>>, x |-> FALSE])
     /\ q' = [q EXCEPT ![e] = Tail(@)] /\ back' = [back EXCEPT ![e] = Append(@, <<f, IF fut[f].how = "ok" THEN t ELSE -t>>)]
  /\ UNCHANGED <<fut, res, eng, table, idOf, abreq, pool, notes, kills>> /\ Log([k |-> "net"])
\* what was in flight when the engine died may still arrive
Deliver == \E e \in Engines :
  /\ back[e] # <<>>
  /\ LET f == back[e][1][1] v == back[e][1][2] IN ReplyEff(f, IF v > 0 THEN "ok" ELSE "err", <<v>>)
  /\ back' = [back EXCEPT ![e] = Tail(@)]
  /\ UNCHANGED <<fut, runs, eng, table, idOf, abreq, q, pool, notes, kills>> /\ Log([k |-> "net"])
Kill == \E e \in UpEngines :
  /\ kills < MaxKill /\ kills' = kills + 1 /\ KillEff(e) /\ notes' = notes \cup {e}
  /\ \E late \in BOOLEAN : back' = (IF late THEN back ELSE [back EXCEPT ![e] = <<>>]) /\ Log([k |-> "kill", e |-> e, late |-> late])
  /\ UNCHANGED <<fut, res, runs, table, idOf, abreq, q, pool>>
Has(s, f) == \E i \in DOMAIN s : s[i] = f
LbAt(e) == {f \in Fs : fut[f].any /\ ~Resolved(f) /\ (Has(q[e], f) \/ (RunsBy(f, e) # {} /\ ~\E i \in DOMAIN back[e] : back[e][i][1] = f))}
\* the client learns of the death; the scheduler answers for what it had sent there
Notice == \E e \in notes :
  /\ notes' = notes \ {e}
  /\ table' = [table EXCEPT ![1] = {p \in @ : p[2] # e}]
  /\ res' = [f \in Fs |-> IF ~Resolved(f) /\ ((~fut[f].any /\ e \in fut[f].es) \/ f \in LbAt(e)) THEN [st |-> "err", v |-> <<Died>>] ELSE res[f]]
  /\ q' = [q EXCEPT ![e] = <<>>]
  /\ UNCHANGED <<fut, runs, eng, idOf, abreq, pool, back, kills>> /\ Log([k |-> "net"])
\* somebody looks
Look == Gen /\ Len(hist) > 0 /\ hist[Len(hist)].k # "look" /\ Log([k |-> "look"]) /\ UNCHANGED <<clVars, q, pool, back, notes, kills>>
Next == SubDirect \/ SubLb \/ Assign \/ Exec \/ Deliver \/ Kill \/ Notice \/ Look
Still == notes = {} /\ (\A e \in Engines : back[e] = <<>> /\ (eng[e] = "up" => q[e] = <<>>)) /\ (pool = {} \/ UpEngines = {})
Idle == Still /\ UNCHANGED mcvars
Spec == Init /\ [][Next \/ Idle]_mcvars
AllJustified == \A f \in Fs : Resolved(f) => Justified(f, res[f].st, res[f].v)
OnceForGood == [][\A f \in Fs : Resolved(f) => res'[f] = res[f]]_mcvars
Ordered == [][\A f \in Fs : Len(runs'[f]) > Len(runs[f]) => LET e == runs'[f][Len(runs'[f])].e IN RunOk(f, e) /\ InOrder(f, e)]_mcvars
Answered == Still => \A f \in Fs : Resolved(f) \/ MayPend(f)
Emit == (Gen /\ Len(hist) >= 6 /\ Len(fut) = MaxF /\ Still) => PrintT("SCRIPT " \o ToJson([n |-> Cardinality(Engines), ops |-> hist]) \o " TPIRCS")
=============================================================================
