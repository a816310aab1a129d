--------------------------- MODULE TaskSchedTrace ---------------------------
(* Validates recorded executions of the real scheduler against TaskSched.      *)
(* Total: every event is consumed; a guard clause of TaskSched that is false   *)
(* for the recorded event adds the tag of the property that owns the clause.   *)
EXTENDS TaskSched, Json, Integers
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ti, l, viol, bal, runs, hasrun
tvars == <<schedVars, ti, l, viol, bal, runs, hasrun>>

Rng(s) == { s[i] : i \in 1..Len(s) }
Dep(d) == [ids |-> Rng(d.ids), all |-> d.all, s |-> d.s, f |-> d.f]
JobOf(e) == [after |-> Dep(e.after), follow |-> Dep(e.follow), targets |-> Rng(e.targets),
             retries |-> e.retries, timeout |-> e.timeout, client |-> e.client]
Z(v) == [t \in Tasks |-> v]
Cfg == Traces[ti].cfg
Ev == Traces[ti].ev[l]

TraceInit ==
  /\ ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ bal = Z(<<0, 0, 0>>) /\ runs = Z(0) /\ hasrun = Z(0)
  /\ hwm = Cfg.hwm /\ now = 0 /\ prev = 0 /\ live = {} /\ deadAt = [e \in Engines |-> 0]
  /\ lastUse = [e \in Engines |-> 0] /\ ctr = 0 /\ job = Z(NoJob) /\ st = Z("new") /\ at = Z(0) /\ left = Z(0)
  /\ refused = Z({}) /\ sinceLo = Z(0) /\ sinceHi = Z(0) /\ qpos = Z(0) /\ subpos = Z(0)
  /\ outcome = Z("none") /\ loc = Z(0) /\ want = Z(NoWant) /\ busy = FALSE /\ kinds = {} /\ snap = {} /\ doomed0 = {} /\ ran = FALSE

Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Bump(t, i, n) == bal' = [bal EXCEPT ![t][i] = @ + n]
Same == UNCHANGED schedVars

DoSubmit == LET t == Ev.t IN
  /\ SubmitEff(t, JobOf(Ev)) /\ Bump(t, 1, 1) /\ UNCHANGED <<viol, runs, hasrun>>
DoResult == ResultEff(Ev.t, Ev.e, Ev.r, Ev.tag) /\ UNCHANGED <<viol, bal, runs, hasrun>>
DoReg == RegisterEff(Ev.e) /\ UNCHANGED <<viol, bal, runs, hasrun>>
DoUnreg == (IF Ev.e \in live THEN UnregisterEff(Ev.e) ELSE (BeginStep("unreg") /\ UNCHANGED <<hwm, now, prev, live, deadAt, lastUse, ctr, job, st, at, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want, snap>>)) /\ UNCHANGED <<viol, bal, runs, hasrun>>
DoTick == TickEff(Ev.now) /\ UNCHANGED <<viol, bal, runs, hasrun>>

KnownTask(t) == t \in Tasks /\ st[t] # "new"
KnownEng(e) == e \in Engines
DoRun == LET t == Ev.t  e == Ev.e IN
  IF ~(t \in Tasks /\ KnownEng(e)) THEN Add(<<<<"T01", "unknown task or engine", l>>>>) /\ Same /\ UNCHANGED <<bal, runs, hasrun>>
  ELSE
  /\ Add(  T(st[t] = "wait", "T02", "run of a task that is " \o st[t])
        \o T(e \in live, "T01", "engine not registered") \o T(e \in live, "T06", "sent to a lost engine")
        \o T(AfterMet(t) /\ ~Invalid(t), "T01", "time dependency not met")
        \o T(FollowMet(t, e), "T01", "location dependency not met")
        \o T(job[t].targets = {} \/ e \in job[t].targets, "T01", "not a requested target")
        \o T(e \notin refused[t], "T01", "engine already failed or refused it")
        \o T(e \notin refused[t], "T04", "retried where it already failed")
        \o T(e \in live => HasRoom(e), "T03", "high water mark exceeded")
        \o T((st[t] = "wait" /\ e \in Eligible(t) /\ Cfg.scheme = "leastload") => LeastLoaded(t, e), "T03", "not the least loaded engine")
        \o T((st[t] = "wait" /\ e \in Eligible(t) /\ Cfg.scheme = "lru") => LRU(t, e), "T03", "not the least recently used engine")
        \o T(st[t] = "wait" => Overtaken(t, e) = {}, "T07", "overtook a task waiting longer")
        \o T(Ev.ok, "T02", "request altered"))
  /\ IF st[t] = "new" THEN Same ELSE RunEff(t, e)
  /\ Bump(t, 2, 1) /\ runs' = [runs EXCEPT ![t] = e] /\ hasrun' = [hasrun EXCEPT ![t] = @ + 1]

SchedFail == {"TaskTimeout", "InvalidDependency", "ImpossibleDependency"}
DoReply == LET t == Ev.t  n == Ev.n  IN
  IF ~(t \in Tasks) THEN Add(<<<<"T02", "reply to an unknown task", l>>>>) /\ Same /\ UNCHANGED <<bal, runs, hasrun>>
  ELSE
  /\ Bump(t, 3, 1) /\ UNCHANGED <<runs, hasrun>>
  /\ LET who == T(Ev.client = job[t].client, "T02", "reply to the wrong client") IN
     CASE st[t] = "reply" /\ want[t].s = "died" ->
            /\ Add(who \o T(n = "EngineError", "T06", "engine died but answered " \o n) \o T(n = "EngineError", "T02", "engine died but answered " \o n))
            /\ ReplyRelayEff(t)
       [] st[t] = "reply" /\ want[t].s # "died" ->
            /\ Add(who \o T(Ev.s = want[t].s /\ Ev.src = want[t].src /\ Ev.tag = want[t].tag, "T02", "reply is not the engine's result")
                       \o T(Ev.s = want[t].s /\ Ev.n \notin SchedFail, "T04", "reported outcome differs from the result")
                       \o T(Ev.n \notin SchedFail, "T05", "finished task reported as " \o n)
                       \o T(n # "EngineError", "T06", "answered as died although its result arrived"))
            /\ ReplyRelayEff(t)
       [] st[t] = "wait" ->
            /\ Add(who \o T(n \in SchedFail => FailReasonOK(t, n), "T05", "failed as " \o n \o " without that reason")
                       \o T(n \in SchedFail, "T02", "reply to a waiting task: " \o n)
                       \o T(n \in SchedFail, "T04", "reported although it must be tried again")
                       \o T(n # "EngineError", "T06", "died reported for a task that is not on a lost engine"))
            /\ ReplyFailEff(t)
       [] st[t] = "run" ->
            /\ Add(who \o T(n \notin SchedFail, "T05", "running task failed as " \o n)
                       \o T(FALSE, "T02", "reply to a running task: " \o n)
                       \o T(n # "EngineError", "T06", "answered as died too early"))
            /\ ReplyFailEff(t)
       [] OTHER ->
            /\ Add(who \o <<<<"T02", "second reply", l>>>> \o T(n # "EngineError" /\ ~(Ev.src \in Engines /\ Ev.src \notin live), "T06", "late result or death of a lost engine reported again"))
            /\ Same

DoMon == LET t == Ev.t IN
  IF ~(t \in Tasks) THEN Add(<<<<"T02", "monitor message about unknown task", l>>>>) /\ Same /\ UNCHANGED <<bal, runs, hasrun>>
  ELSE
  /\ Same /\ UNCHANGED <<runs, hasrun>>
  /\ CASE Ev.m = "intask" -> Bump(t, 1, -1) /\ UNCHANGED viol
       [] Ev.m = "dest" -> Bump(t, 2, -1) /\ Add(T(runs[t] = Ev.e, "T02", "wrong destination reported to the hub"))
       [] OTHER -> Bump(t, 3, -1) /\ UNCHANGED viol

Quiet == \A t \in Tasks : st[t] # "run"
Owing == { t \in Tasks : st[t] = "reply" }
DoEnd ==
  LET must == { t \in Waiting : MustFail(t) }
      starved == { t \in Waiting : Starved(t) }
  IN
  /\ Add( T(Owing = {}, "T02", "no answer sent")
        \o T({ t \in Owing : want[t].s # "died" } = {}, "T04", "outcome not reported at once")
        \o T({ t \in Owing : want[t].s = "died" } = {}, "T06", "task on a lost engine neither answered nor retried")
        \o T(must = {}, "T05", "doomed task not failed")
        \o T(starved = {}, "T03", "runnable task left waiting")
        \o T({ t \in starved : refused[t] # {} } = {}, "T04", "not tried again")
        \o T({ t \in starved : refused[t] # {} } = {} \/ "tick" \notin kinds, "T06", "stranded task not retried")
        \o T(Quiet => (starved = {} /\ must = {}), "T02", "task lost: nothing is running and it is left waiting")
        \o T(\A t \in Tasks : bal[t] = <<0, 0, 0>>, "T02", "hub not told exactly once"))
  /\ EndEff /\ UNCHANGED <<bal, runs, hasrun>>

Step == CASE Ev.k = "submit" -> DoSubmit [] Ev.k = "result" -> DoResult [] Ev.k = "reg" -> DoReg
          [] Ev.k = "unreg" -> DoUnreg [] Ev.k = "tick" -> DoTick [] Ev.k = "run" -> DoRun
          [] Ev.k = "reply" -> DoReply [] Ev.k = "mon" -> DoMon [] Ev.k = "end" -> DoEnd

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o Join(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE Join(viol)) \o " END"

TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<schedVars, ti, viol, bal, runs, hasrun>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
