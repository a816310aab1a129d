--------------------------- MODULE BroadcastTrace ---------------------------
EXTENDS Broadcast, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, l, viol
tvars == <<bVars, ti, l, viol>>
Ev == Traces[ti].ev[l]
Leaves == 2 ^ Traces[ti].cfg.depth
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ BInit
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Tag(m) == IF m \in Msgs /\ req[m].coal THEN "B02" ELSE "B01"
DoSub == SubmitEff(Ev.m, Ev.ts, Ev.c) /\ Add(<<>>)
DoCopy ==
  IF Ev.m \in Msgs /\ CopyOk(Ev.m, Ev.e)
  THEN CopyEff(Ev.m, Ev.e) /\ Add(T(Ev.leaf = Ev.e % Leaves, "B01", "sent through a scheduler the engine is not connected to")
                               \o T(Ev.intact, "B01", "the copy differs from the request")
                               \o T(Ev.id, "B01", "the copy is not identified by request and engine"))
  ELSE UNCHANGED bVars /\ Add(T(FALSE, "B01", "an engine got a copy that was not meant for it, or a second copy"))
DoRep == AnswerEff(Ev.m, Ev.e, Ev.st, Ev.tok) /\ Add(<<>>)
DoOut ==
  IF Ev.m \notin Msgs \/ req[Ev.m] = NoReq \/ ~Ev.client THEN UNCHANGED bVars /\ Add(T(FALSE, "B01", "a reply to nobody"))
  ELSE IF ~Ev.coal
  THEN IF OutOk(Ev.m, Ev.e, Ev.st, Ev.tok) /\ Ev.intact THEN OutEff(Ev.m, Ev.e) /\ Add(<<>>)
       ELSE /\ Add(T(FALSE, Tag(Ev.m), "a reply that no engine sent, a changed reply, or a second one"))
            /\ IF Ev.e \in Targets(Ev.m) THEN OutEff(Ev.m, Ev.e) ELSE UNCHANGED bVars
  ELSE /\ Add(T(CoalDue(Ev.m), "B02", "coalesced reply too early, twice, or not asked for")
              \o T(~CoalDue(Ev.m) \/ Failed(Ev.m) = {} \/ Ev.st # "ok", "B02", "failures of some engines are missing from the coalesced reply")
              \o T(~CoalDue(Ev.m) \/ CoalOk(Ev.m, Ev.st, Ev.es, Ev.toks), "B02", "coalesced results are incomplete, or attributed to the wrong engines"))
       /\ CoalEff(Ev.m)
DoQuiet == UNCHANGED bVars /\ Add(T(\A m \in Msgs : copied[m] = Targets(m), "B01", "a target never got its copy")
                               \o T(\A m \in Msgs : ~req[m].coal => Settled(m), "B01", "an engine's reply was not passed on")
                               \o T(\A m \in Msgs : req[m].coal => Settled(m), "B02", "all engines answered, but there is no coalesced reply"))
Step == CASE Ev.k = "sub" -> DoSub [] Ev.k = "copy" -> DoCopy [] Ev.k = "rep" -> DoRep [] Ev.k = "out" -> DoOut [] Ev.k = "quiet" -> DoQuiet
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o Join(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE Join(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<bVars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
