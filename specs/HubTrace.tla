----------------------------- MODULE HubTrace ------------------------------
(* Validates recorded executions of the real Hub against Hub (total).          *)
EXTENDS Hub, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, l, viol
tvars == <<hubVars, ti, l, viol>>
Ev == Traces[ti].ev[l]
Rng(s) == { s[i] : i \in 1..Len(s) }
NoDup(s) == Len(s) = Cardinality(Rng(s))

TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ rt = Traces[ti].cfg.rt /\ HubInit

Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Notes == Ev.note
NoNote == T(Notes = <<>>, "H02", "announcement without a change of membership")

\* first occurrences, in order, of the elements of s that are in S
RECURSIVE First(_, _)
First(s, S) == IF s = <<>> \/ S = {} THEN <<>>
               ELSE IF Head(s) \in S THEN <<Head(s)>> \o First(Tail(s), S \ {Head(s)}) ELSE First(Tail(s), S)
RegNotes(us) == [i \in 1..Len(us) |-> <<"reg", preg[us[i]].id, us[i]>>]
UnregNotes(us) == [i \in 1..Len(us) |-> <<"unreg", reg[us[i]], us[i]>>]

DoReg ==
  IF Ev.ok THEN
    /\ Add(T(RegAccept(Ev.u), "H01", "identity already in use was accepted") \o T(IdOK(Ev.want, Ev.id), "H01", "wrong engine id handed out") \o NoNote)
    /\ RegisterEff(Ev.u, Ev.id)
  ELSE /\ Add(T(~RegAccept(Ev.u), "H01", "registration refused or unanswered") \o NoNote) /\ UNCHANGED hubVars
DoHeart == LET us == First(Ev.us, PendReg) IN
  /\ Add(T(Notes = RegNotes(us), "H02", "first heartbeat not followed by exactly one announcement"))
  /\ BeatEff(Rng(us))
DoLate == LET us == First(Ev.us, PendReg)  exp == RegNotes(us) IN
  /\ Add(T(Len(Notes) = Len(exp) /\ Rng(Notes) = Rng(exp), "H02", "heartbeat that arrived in time was ignored"))
  /\ AdvEff(Ev.now, Rng(us))
DoStop == LET us == First(Ev.us, Registered) IN
  /\ Add(T(Notes = UnregNotes(us), "H02", "stopped heart not followed by exactly one announcement"))
  /\ UnregEff(Rng(us))
DoShut == LET us == First(<<Ev.u>>, Registered) IN
  /\ Add(T(Notes = UnregNotes(us), "H02", "shutdown not followed by exactly one announcement"))
  /\ UnregEff(Rng(us))
DoUnreg ==
  IF IsReg(Ev.id) THEN
    /\ Add(T(Notes = UnregNotes(<<UuidOf(Ev.id)>>), "H02", "unregistration not followed by exactly one announcement"))
    /\ UnregEff({UuidOf(Ev.id)})
  ELSE IF \E u \in PendReg : preg[u].id = Ev.id
  THEN Add(NoNote) /\ CancelEff(CHOOSE u \in PendReg : preg[u].id = Ev.id)
  ELSE Add(NoNote) /\ UNCHANGED hubVars
DoAdv == Add(NoNote) /\ AdvEff(Ev.now, {})
DoConn == /\ Add(T(Ev.ok /\ NoDup(Ev.engines) /\ Rng(Ev.engines) = { <<reg[u], u>> : u \in Registered }, "H02", "engine list differs from the registered engines")
              \o T(Ev.ok => Rng(Ev.engines) = { <<reg[u], u>> : u \in Registered }, "H01", "engine list differs from the registered engines") \o NoNote)
          /\ UNCHANGED hubVars
DoRestart == Add(NoNote) /\ RestartEff(Ev.keep)

DoMReq == Add(NoNote) /\ MReqEff(Ev.m, Ev.u, Ev.rank)
DoTReq == Add(NoNote) /\ TReqEff(Ev.m, Ev.rank)
DoBReq == Add(NoNote) /\ BReqEff(Ev.m, Ev.rank)
DoDest == Add(NoNote) /\ DestEff(Ev.m, Ev.u)
DoRes == Add(NoNote) /\ ResEff(Ev.m, Ev.u, Ev.r, Ev.ab)
DoIO == Add(NoNote) /\ IOEff(Ev.m, Ev.name, Ev.text)

IOOf(m) == <<m, rec[m].io.stdout, rec[m].io.stderr, rec[m].io.execute_input, rec[m].io.execute_result, rec[m].io.error>>
DoGetRes ==
  LET S == Rng(Ev.ms)  so == Ev.so IN
  IF Ev.err THEN
    /\ Add(T(MayErr(S, so), "H03", "known results refused") \o NoNote) /\ UNCHANGED hubVars
  ELSE
    LET seen == Rng(Ev.pend) \cup Rng(Ev.comp)
        hard == { m \in S : m \in Msgs /\ ~(Unknown(m)) } IN
    /\ Add(T(~MustErr(S, so), "H03", "unknown or purged id answered as if known")
        \o T(~(\E m \in S : m \in Msgs /\ ~so /\ rec[m].sub /\ Missing(m)), "H05", "purged result still served")
        \o T(seen = S /\ Rng(Ev.pend) \cap Rng(Ev.comp) = {} /\ NoDup(Ev.pend) /\ NoDup(Ev.comp), "H03", "not every id reported exactly once")
        \o T(\A m \in Rng(Ev.pend) \cap hard : IsPend(m), "H03", "finished request reported pending")
        \o T(\A m \in Rng(Ev.comp) \cap hard : IsComp(m), "H03", "unfinished request reported completed")
        \o T(so \/ ({ x[1] : x \in Rng(Ev.res) } = Rng(Ev.comp) /\ \A x \in Rng(Ev.res) : x[1] \in Msgs => x[2] \in rec[x[1]].ok), "H03", "wrong result returned")
        \o T(Ev.bufok, "H03", "result buffers missing or out of order")
        \o T(so \/ \A x \in Rng(Ev.io) : x[1] \in Msgs => x = IOOf(x[1]), "H03", "captured output differs from what was published")
        \o T(so \/ \A x \in Rng(Ev.hdr) : x[2], "H03", "stored request header altered")
        \o NoNote)
    /\ SeenEff({ m \in Rng(Ev.pend) \cap hard : Cardinality(rec[m].ok) > 1 /\ IsPend(m) },
               { x \in Rng(Ev.res) : x[1] \in hard /\ Cardinality(rec[x[1]].ok) > 1 /\ x[2] \in rec[x[1]].ok })

RowOK(r) == LET u == UuidOf(r.id) IN
  IF Ev.verbose THEN /\ NoDup(r.q) /\ NoDup(r.t) /\ NoDup(r.c) /\ Rng(r.q) = MuxAt(u) /\ Rng(r.t) = TaskAt(u) /\ Rng(r.c) = comp[u]
  ELSE r.nq = Cardinality(MuxAt(u)) /\ r.nt = Cardinality(TaskAt(u)) /\ r.nc = Cardinality(comp[u])
Ambig == \E m \in Msgs : rec[m].act /\ Cardinality(rec[m].ok) > 1
DoQStat ==
  LET want == IF Ev.all THEN { reg[u] : u \in Registered } ELSE Rng(Ev.ids) \cup { reg[u] : u \in Rng(Ev.us) }
      ids == { Ev.rows[i].id : i \in 1..Len(Ev.rows) }
      good == \A i \in want : i # -1 /\ IsReg(i)
      never == \E i \in want : i \notin ever IN
  /\ Add(NoNote \o IF Ev.err THEN T(~good, "H04", "status of registered engines refused")
     ELSE T(~never, "H04", "status of an engine that never existed")
       \o T(want \subseteq ids /\ Len(Ev.rows) = Cardinality(ids), "H04", "engine missing from the status")
       \o T(Ev.all \/ ids = want, "H04", "status of engines that were not asked for")
       \o T(\A i \in 1..Len(Ev.rows) : IsReg(Ev.rows[i].id) => RowOK(Ev.rows[i]), "H04", "queue status differs from the actual queues")
       \o T(IF Ev.verbose THEN NoDup(Ev.un) /\ Unassigned \subseteq Rng(Ev.un) /\ Rng(Ev.un) \subseteq (Unassigned \cup MaybeUnassigned)
            ELSE Ev.unn >= Cardinality(Unassigned) /\ Ev.unn <= Cardinality(Unassigned \cup MaybeUnassigned), "H04", "unassigned tasks misreported"))
  /\ UNCHANGED hubVars
DoLoad ==
  LET want == IF Ev.all THEN { reg[u] : u \in Registered } ELSE Rng(Ev.ids) IN
  /\ Add(NoNote \o IF Ev.err THEN T(\E i \in want : ~IsReg(i), "H04", "load of registered engines refused")
     ELSE T(want \subseteq { x[1] : x \in Rng(Ev.rows) }, "H04", "engine missing from the load")
       \o T(\A x \in Rng(Ev.rows) : IsReg(x[1]) => x[2] = Cardinality(MuxAt(UuidOf(x[1])) \cup TaskAt(UuidOf(x[1]))), "H04", "wrong load"))
  /\ UNCHANGED hubVars
DoHist ==
  LET ms == SelectSeq(Ev.ms, LAMBDA m : m \in Msgs /\ rec[m].sub) IN
  /\ Add(NoNote \o T(~Ev.err /\ NoDup(ms) /\ Rng(ms) = { m \in Msgs : rec[m].sub /\ rec[m].db }, "H03", "history incomplete")
       \o T(Rng(ms) \subseteq { m \in Msgs : rec[m].db }, "H05", "purged request still in the history")
       \o T(\A i \in 1..(Len(ms) - 1) : rec[ms[i]].rank <= rec[ms[i + 1]].rank, "H03", "history not in submission order"))
  /\ UNCHANGED hubVars
DoDbq ==
  LET ms == { m \in Rng(Ev.ms) : m \in Msgs /\ rec[m].sub }
      must == { m \in Msgs : rec[m].sub /\ rec[m].db /\ (IF Ev.q = "inc" THEN rec[m].ok = {"pend"} ELSE ~IsPend(m)) }
      may == { m \in Msgs : rec[m].sub /\ rec[m].db /\ (IF Ev.q = "inc" THEN IsPend(m) ELSE IsComp(m)) } IN
  /\ Add(NoNote \o T(~Ev.err /\ must \subseteq ms /\ ms \subseteq may, "H03", "query for (un)finished requests wrong"))
  /\ UNCHANGED hubVars
RECURSIVE Upto(_)
Upto(s) == IF s = <<>> \/ ~IsReg(Head(s)) THEN {} ELSE {UuidOf(Head(s))} \cup Upto(Tail(s))
DoPurge ==
  LET S == Rng(Ev.ms)
      badid == \E i \in Rng(Ev.ids) : ~IsReg(i) IN
  IF Ev.all THEN
     /\ Add(NoNote \o T(~Ev.err, "H05", "purge refused"))
     /\ PurgeEff({ m \in Msgs : rec[m].db /\ ~IsPend(m) })
  ELSE /\ Add(NoNote \o T(Blocked(S) => Ev.err, "H05", "pending request purged")
               \o T(badid => Ev.err, "H05", "purge for an unknown engine accepted")
               \o T(Ev.err => (Blocked(S) \/ badid), "H05", "purge refused"))
       /\ PurgeEff(IF Blocked(S) THEN {} ELSE Dropped(S, Upto(Ev.ids)))
DoResub ==
  LET S == Rng(Ev.ms)
      bad == \E m \in S : Missing(m)
      new == { x[2] : x \in Rng(Ev.map) } IN
  IF Ev.err THEN /\ Add(NoNote \o T(bad, "H05", "resubmission refused") \o T(Ev.sent = <<>>, "H05", "failed resubmission sent tasks")) /\ UNCHANGED hubVars
  ELSE /\ Add(NoNote \o T(~bad, "H05", "resubmission of a missing request")
          \o T({ x[1] : x \in Rng(Ev.map) } = S /\ Len(Ev.map) = Cardinality(S), "H05", "not every request resubmitted")
          \o T(Len(Ev.sent) = Len(Ev.map) /\ { x[1] : x \in Rng(Ev.sent) } = new /\ \A x \in Rng(Ev.sent) : x[2], "H05", "resubmitted task is not an exact copy, once")
          \o T(\A m \in new : ~rec[m].sub, "H05", "resubmission reused an id"))
       /\ ResubEff(new, 100000 + l)

Step == CASE Ev.k = "reg" -> DoReg [] Ev.k = "heart" -> DoHeart [] Ev.k = "late" -> DoLate [] Ev.k = "stop" -> DoStop
   [] Ev.k = "shut" -> DoShut [] Ev.k = "unreg" -> DoUnreg [] Ev.k = "adv" -> DoAdv [] Ev.k = "conn" -> DoConn
   [] Ev.k = "restart" -> DoRestart [] Ev.k = "mreq" -> DoMReq [] Ev.k = "treq" -> DoTReq [] Ev.k = "breq" -> DoBReq
   [] Ev.k = "dest" -> DoDest [] Ev.k \in {"mres", "tres", "bres"} -> DoRes [] Ev.k = "io" -> DoIO
   [] Ev.k = "getres" -> DoGetRes [] Ev.k = "qstat" -> DoQStat [] Ev.k = "load" -> DoLoad [] Ev.k = "hist" -> DoHist
   [] Ev.k = "dbq" -> DoDbq [] Ev.k = "purge" -> DoPurge [] Ev.k = "resub" -> DoResub

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o Join(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE Join(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<hubVars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
