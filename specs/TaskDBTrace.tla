----------------------------- MODULE TaskDBTrace -----------------------------
EXTENDS TaskDB, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, l, viol, snaps
tvars == <<dbVars, ti, l, viol, snaps>>
Cfg == Traces[ti].cfg
Ev == Traces[ti].ev[l]
NoStore == Cfg.kind = "none"
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ DBInit
             /\ lim = [recs |-> Traces[ti].cfg.recs, bytes |-> Traces[ti].cfg.bytes, pct |-> Traces[ti].cfg.pct]
             /\ snaps = <<[t |-> 0, r |-> << >>]>>
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Snap == snaps' = Append(snaps, [t |-> Ev.t, r |-> recs'])
Mut == IF lim.recs >= 0 \/ lim.bytes >= 0 THEN "D03" ELSE "D01"
\* an add or update: R is the content before culling
Change(R, o) ==
  LET S == Survivors(R, o, Cfg.bs)  O == Rng(Ev.ids) \cap DOMAIN R
      hitU == \E i \in DOMAIN R \ S : R[i].submitted = -1
  IN /\ Add(T(~Ev.err, Mut, "a valid write failed")
            \o T(Rng(Ev.ids) \subseteq DOMAIN R, "D01", "unknown or dropped records appeared")
            \o T(DOMAIN R # S \/ O = DOMAIN R, Mut, "records were lost without need")
            \o T(DOMAIN R = S \/ IF hitU THEN Within(R, O, Cfg.bs) /\ \A i \in O : R[i].submitted = -1 ELSE O = S, "D03", "not the oldest records, or not as many as needed, were culled"))
     /\ SetEff(R, o, O) /\ Snap
DoAdd ==
  IF NoStore THEN UNCHANGED dbVars /\ Add(T(~Ev.err, "D01", "NoDB must accept records")) /\ UNCHANGED snaps
  ELSE IF Ev.id \in Ids THEN UNCHANGED <<dbVars, snaps>> /\ Add(T(Ev.err, "D01", "a duplicate id was accepted") \o T(Rng(Ev.ids) = Ids, "D01", "failed add changed the records"))
  ELSE Change(AddRec(Ev.id, [f \in Fields |-> Ev.rec[f]]), Append(ord, Ev.id))
DoUpd ==
  IF NoStore THEN UNCHANGED dbVars /\ Add(T(~Ev.err, "D01", "NoDB must accept updates")) /\ UNCHANGED snaps
  ELSE IF Ev.id \in Ids THEN Change(UpdRec(Ev.id, Ev.upd), ord)
  ELSE UNCHANGED <<dbVars, snaps>> /\ Add(T(Ev.id \in culled => Ev.err, "D03", "update of a culled record accepted") \o T(Rng(Ev.ids) = Ids, "D01", "update of an unknown record changed the database"))
DoDrop ==
  IF NoStore THEN UNCHANGED <<dbVars, snaps>> /\ Add(<<>>)
  ELSE /\ Add(T(Ev.id \in Ids => ~Ev.err, "D01", "dropping a record failed") \o T(Rng(Ev.ids) = Ids \ {Ev.id}, "D01", "drop removed the wrong records"))
       /\ DropEff({Ev.id}) /\ Snap
DoDropM ==
  IF NoStore THEN UNCHANGED <<dbVars, snaps>> /\ Add(<<>>)
  ELSE LET D == Matches(Ev.check, Cfg.strs)
       IN /\ Add(T(~Ev.err, "D02", "dropping matching records failed") \o T(Rng(Ev.ids) = Ids \ D, "D02", "the wrong records were dropped"))
          /\ DropEff(D) /\ Snap
DoGet ==
  /\ UNCHANGED <<dbVars, snaps>>
  /\ Add(IF NoStore THEN T(Ev.err, "D01", "NoDB returned a record")
         ELSE IF Ev.id \in Ids THEN T(~Ev.err, "D01", "stored record not found") \o T(Ev.err \/ \A f \in Fields : Ev.rec[f] = recs[Ev.id][f], "D01", "record differs from what was stored")
         ELSE T(Ev.err, IF Ev.id \in culled THEN "D03" ELSE "D01", "a record that is not there was returned"))
DoFind ==
  /\ UNCHANGED <<dbVars, snaps>>
  /\ LET M == Matches(Ev.check, Cfg.strs)  got == { Ev.recs[k].msg_id : k \in 1..Len(Ev.recs) }
         want == IF Ev.keys = <<>> THEN Fields ELSE Rng(Ev.keys) \cup {"msg_id"}
     IN Add(IF NoStore THEN T(Ev.err, "D01", "NoDB answered a query")
            ELSE T(~Ev.err, "D02", "query failed") \o
                 (IF Ev.err THEN <<>>
                  ELSE T(got = M /\ Cardinality(got) = Len(Ev.recs), "D02", "query returned the wrong records")
                    \o T(\A k \in 1..Len(Ev.recs) : DOMAIN Ev.recs[k] = want, "D02", "wrong keys in the query result")
                    \o T(\A k \in 1..Len(Ev.recs) : Ev.recs[k].msg_id \in Ids => \A f \in want \cap DOMAIN Ev.recs[k] : Ev.recs[k][f] = recs[Ev.recs[k].msg_id][f], "D01", "queried record differs from what was stored")))
DoHist == UNCHANGED <<dbVars, snaps>> /\ Add(IF NoStore THEN T(Ev.err, "D01", "NoDB returned history")
            ELSE T(~Ev.err, "D01", "history failed") \o T(Ev.err \/ HistOk(Ev.hs), "D01", "history wrong or out of order"))
DumpIs(d, R) == { d[k].msg_id : k \in 1..Len(d) } = DOMAIN R /\ \A k \in 1..Len(d) : \A f \in Fields : d[k][f] = R[d[k].msg_id][f]
DoReopen == UNCHANGED dbVars /\ Add(T(~Ev.err /\ DumpIs(Ev.dump, recs), "D01", "records lost or changed by closing and reopening")) /\ Snap
\* a crash may lose the writes of the last 10 s only, and never leaves a mixture
DoCrash ==
  LET last == CHOOSE n \in 1..Len(snaps) : snaps[n].t <= Ev.t - 10 \/ n = 1
      \* the newest snapshot old enough
      base == CHOOSE n \in 1..Len(snaps) : (snaps[n].t <= Ev.t - 10 \/ n = 1) /\ \A m \in 1..Len(snaps) : m > n => snaps[m].t > Ev.t - 10
      ok == { n \in base..Len(snaps) : DumpIs(Ev.dump, snaps[n].r) }
  IN /\ Add(T(~Ev.err /\ ok # {}, "D01", "records written long before a crash were lost"))
     /\ IF ok # {} /\ ~Ev.err THEN LET n == CHOOSE n \in ok : TRUE IN recs' = snaps[n].r /\ ord' = SelectSeq(ord, LAMBDA x : x \in DOMAIN snaps[n].r) \o SelectSeq(Ev.order, LAMBDA x : x \notin Rng(ord)) /\ UNCHANGED <<culled, lim>>
        ELSE UNCHANGED dbVars
     /\ snaps' = <<[t |-> Ev.t, r |-> recs']>>
Step == CASE Ev.k = "add" -> DoAdd [] Ev.k = "upd" -> DoUpd [] Ev.k = "drop" -> DoDrop [] Ev.k = "dropm" -> DoDropM [] Ev.k = "get" -> DoGet
          [] Ev.k = "find" -> DoFind [] Ev.k = "hist" -> DoHist [] Ev.k = "reopen" -> DoReopen [] Ev.k = "crash" -> DoCrash
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o Join(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE Join(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<dbVars, ti, viol, snaps>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
