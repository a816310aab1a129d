------------------------------- MODULE HubMC -------------------------------
(* Exhaustive exploration of the hub design, and generation of scripts.        *)
EXTENDS Hub, Json, TLC
CONSTANTS Gen, MaxOps, Members, Records, MaxTime
VARIABLES hist, ops
mcvars == <<hubVars, hist, ops>>
Init == HubInit /\ rt = 3 /\ hist = <<>> /\ ops = 0
Log(r) == hist' = (IF Gen THEN Append(hist, r) ELSE hist) /\ ops' = ops + 1
Fresh(want) == IF want >= 0 /\ want \notin IdsInUse THEN want
               ELSE CHOOSE i \in 0..20 : i \notin used /\ i \notin IdsInUse /\ \A j \in used \cup IdsInUse : j < i
Free == { m \in Msgs : rec[m] = NoRec }
NextMsg == CHOOSE m \in Free : \A x \in Free : m <= x
Lab(m) == "r" \o ToString(m)

Member ==
  \/ \E u \in Uuids, w \in {-1, 0, 1} : RegAccept(u) /\ RegisterEff(u, Fresh(w)) /\ Log([k |-> "reg", u |-> u, want |-> w])
  \/ \E u \in Uuids : ~RegAccept(u) /\ UNCHANGED hubVars /\ Log([k |-> "reg", u |-> u, want |-> -1])
  \/ \E u \in Uuids : BeatEff({u}) /\ Log([k |-> "heart", u |-> u])
  \/ \E u \in Uuids : UnregEff({u}) /\ Log([k |-> "stop", u |-> u])
  \/ \E u \in Registered : UnregEff({u}) /\ Log([k |-> "unreg", u |-> u])
  \/ \E u \in PendReg : CancelEff(u) /\ Log([k |-> "unreg", u |-> u])
  \/ \E d \in {1, 3} : now + d <= MaxTime /\ AdvEff(now + d, {}) /\ Log([k |-> "adv", d |-> d])
  \/ \E u \in PendReg : now + 3 <= MaxTime /\ AdvEff(now + 3, {u}) /\ Log([k |-> "late", u |-> u, d |-> 3])
  \/ RestartEff(TRUE) /\ Log([k |-> "restart"])
Recs ==
  \/ /\ Free # {}
     /\ \/ \E u \in Registered : MReqEff(NextMsg, u, NextMsg) /\ Log([k |-> "mreq", m |-> NextMsg, u |-> u])
        \/ TReqEff(NextMsg, NextMsg) /\ Log([k |-> "treq", m |-> NextMsg])
        \/ BReqEff(NextMsg, NextMsg) /\ Log([k |-> "breq", m |-> NextMsg])
  \/ \E m \in Msgs : rec[m].kind = "task" /\ rec[m].act /\ (rec[m].un = "yes" \/ rec[m].at # 0) /\
        \E u \in Registered : u # rec[m].at /\ DestEff(m, u) /\ Log([k |-> "dest", m |-> m, u |-> u])
  \/ \E m \in Msgs : rec[m].act /\ rec[m].at # 0 /\ ResEff(m, rec[m].at, Lab(m), FALSE) /\ Log([k |-> "res", m |-> m, u |-> rec[m].at, kind |-> rec[m].kind])
  \/ \E m \in Msgs, u \in Registered : rec[m].act /\ rec[m].kind = "bcast" /\ ResEff(m, u, Lab(m), FALSE) /\ Log([k |-> "res", m |-> m, u |-> u, kind |-> "bcast"])
  \/ \E m \in Msgs : rec[m].db /\ ~Blocked({m}) /\ PurgeEff({m}) /\ Log([k |-> "purge", m |-> m])
  \/ \E u \in Registered : PurgeEff(Dropped({}, {u})) /\ Log([k |-> "purgeeng", u |-> u])
  \/ \E m \in Msgs : rec[m].db /\ Free # {} /\ ResubEff({NextMsg}, NextMsg) /\ Log([k |-> "resub", m |-> m])
  \/ \E m \in Msgs : rec[m].kind = "task" /\ rec[m].act /\ rec[m].at = 0 /\ rec[m].un = "no" /\ TReqEff(m, m) /\ Log([k |-> "treq", m |-> m])
Next == (ops < MaxOps /\ ((Members /\ Member) \/ (Records /\ Recs))) \/ (ops = MaxOps /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
Cons == TRUE
Emit == (Gen /\ ops = MaxOps) => PrintT("SCRIPT " \o ToJson([ops |-> hist]) \o " TPIRCS")
=============================================================================
