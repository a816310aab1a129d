----------------------------- MODULE TaskSched -----------------------------
(* The load-balancing task scheduler: what it may and must do.                *)
(*                                                                            *)
(* Environment actions (inputs of the scheduler): Submit, Result, Register,   *)
(* Unregister, Tick.  Scheduler actions (outputs): Run, ReplyRelay, ReplyFail *)
(* and EndStep, which closes the handling of one input ("step").  Every       *)
(* guard is a named operator so that the trace specification (TaskSchedTrace) *)
(* can evaluate the very same clauses on executions of the implementation.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Tasks, Engines, GraceMin, GraceMax

VARIABLES
  hwm,      \* high water mark (0 = unlimited)
  now,      \* time
  prev,     \* time before the current step
  live,     \* registered engines
  deadAt,   \* deadAt[e] = time of unregistration (or 0 when never)
  lastUse,  \* lastUse[e] = number of the last assignment to e (0: never)
  ctr,      \* counter for lastUse and qpos
  job,      \* job[t] = request of t
  st,       \* "new" | "wait" | "run" | "reply" | "done"
  at,       \* engine t is outstanding on (0 if none)
  left,     \* retries left
  refused,  \* engines t failed on or was refused by
  sinceLo, sinceHi, \* bounds of the moment t was last put in the queue
  qpos,     \* queue position of t;  subpos: submission order
  subpos,
  outcome,  \* "none" | "ok" | "err"
  loc,      \* engine that produced the final outcome (0: none)
  want,     \* want[t] = what the owed reply must look like
  busy,     \* TRUE while an input is being handled
  kinds,    \* input kinds of the current step
  snap,     \* tasks whose time dependency was met right after the step's input
  doomed0,  \* waiting tasks that were unreachable before the step
  ran       \* a task was assigned in this step

schedVars == <<hwm, now, prev, live, deadAt, lastUse, ctr, job, st, at, left, refused, sinceLo,
               sinceHi, qpos, subpos, outcome, loc, want, busy, kinds, snap, doomed0, ran>>

NoDep == [ids |-> {}, all |-> TRUE, s |-> TRUE, f |-> FALSE]
NoJob == [after |-> NoDep, follow |-> NoDep, targets |-> {}, retries |-> 0, timeout |-> 0, client |-> 0]
NoWant == [s |-> "none", src |-> 0, tag |-> 0]

(* ------------------------------ dependencies ------------------------------ *)
Completed == { t \in Tasks : outcome[t] = "ok" }
Failed    == { t \in Tasks : outcome[t] = "err" }

MetBy(d, ok, bad) ==
  d.ids = {} \/ LET against == (IF d.s THEN ok ELSE {}) \cup (IF d.f THEN bad ELSE {})
                IN IF d.all THEN d.ids \subseteq against ELSE d.ids \cap against # {}
HopelessBy(d, ok, bad) ==
  d.ids # {} /\ LET against == (IF d.s THEN {} ELSE ok) \cup (IF d.f THEN {} ELSE bad)
                IN IF d.all THEN d.ids \cap against # {} ELSE d.ids \subseteq against

AfterMet(t)  == MetBy(job[t].after, Completed, Failed)
FollowMet(t, e) == MetBy(job[t].follow, { u \in Completed : loc[u] = e }, { u \in Failed : loc[u] = e })
BadIds(t, d) == \E u \in d.ids : IF u = t THEN TRUE ELSE IF u \notin Tasks THEN TRUE ELSE st[u] = "new"
(* an "any" time dependency that is already met is not examined further *)
Invalid(t)   == BadIds(t, job[t].follow) \/ (BadIds(t, job[t].after) /\ ~AfterMet(t))
Unreachable(t) == HopelessBy(job[t].after, Completed, Failed) \/ HopelessBy(job[t].follow, Completed, Failed)
(* follow with all=True on tasks that finished in different places *)
FollowSplit(t) ==
  /\ job[t].follow.all
  /\ \E u, v \in { x \in job[t].follow.ids \cap Tasks : /\ loc[x] # 0
                        /\ ((job[t].follow.s /\ outcome[x] = "ok") \/ (job[t].follow.f /\ outcome[x] = "err")) } : loc[u] # loc[v]
NoTargetLeft(t) == job[t].targets # {} /\ (job[t].targets \ refused[t]) \cap live = {}
(* what it has to follow ran where it cannot run *)
Usable(t) == { e \in live \ refused[t] : job[t].targets = {} \/ e \in job[t].targets }
FollowRel(t) == { x \in job[t].follow.ids \cap Tasks : (job[t].follow.s /\ outcome[x] = "ok") \/ (job[t].follow.f /\ outcome[x] = "err") }
FollowLost(t) ==
  /\ job[t].follow.ids # {}
  /\ IF job[t].follow.all THEN \E u \in FollowRel(t) : loc[u] \notin Usable(t)
     ELSE /\ \A u \in job[t].follow.ids \cap Tasks : outcome[u] # "none"
          /\ \A u \in FollowRel(t) : loc[u] \notin Usable(t)
Hopeless(t) == Unreachable(t) \/ FollowSplit(t) \/ NoTargetLeft(t) \/ FollowLost(t)

(* ------------------------------ placement --------------------------------- *)
Load(e) == Cardinality({ t \in Tasks : st[t] = "run" /\ at[t] = e })
HasRoom(e) == e \in live /\ (hwm = 0 \/ Load(e) < hwm)
PlacementOK(t, e) ==
  /\ e \notin refused[t]
  /\ job[t].targets = {} \/ e \in job[t].targets
  /\ FollowMet(t, e)
Eligible(t) == { e \in live : HasRoom(e) /\ PlacementOK(t, e) }
LeastLoaded(t, e) ==
  \A o \in Eligible(t) : \/ Load(e) < Load(o)
                         \/ Load(e) = Load(o) /\ (lastUse[e] <= lastUse[o])
LRU(t, e) == \A o \in Eligible(t) : lastUse[e] <= lastUse[o]
Waiting == { t \in Tasks : st[t] = "wait" }
Overtaken(t, e) ==   \* tasks that must be served before t on e: waiting since before t was submitted
  { u \in Waiting \ {t} : qpos[u] < subpos[t] /\ u \in snap
                          /\ AfterMet(u) /\ PlacementOK(u, e) /\ ~Invalid(u) }

(* ------------------------------ effects ----------------------------------- *)
Enqueue(S, lo, hi) ==
  /\ qpos' = [t \in Tasks |-> IF t \in S THEN ctr + 1 ELSE qpos[t]]
  /\ sinceLo' = [t \in Tasks |-> IF t \in S THEN lo ELSE sinceLo[t]]
  /\ sinceHi' = [t \in Tasks |-> IF t \in S THEN hi ELSE sinceHi[t]]
  /\ ctr' = ctr + 1

BeginStep(k) ==
  /\ busy' = TRUE
  /\ kinds' = (IF busy THEN kinds ELSE {}) \cup {k}
  /\ doomed0' = IF busy THEN doomed0 ELSE { t \in Tasks : st[t] = "wait" /\ Unreachable(t) }
  /\ ran' = IF busy THEN ran ELSE FALSE
Snap == snap' = { t \in Tasks : st'[t] = "wait" /\ MetBy(job'[t].after, { u \in Tasks : outcome'[u] = "ok" }, { u \in Tasks : outcome'[u] = "err" }) }

SubmitEff(t, j) ==
  /\ BeginStep("submit")
  /\ job' = [job EXCEPT ![t] = j]
  /\ st' = [st EXCEPT ![t] = "wait"]
  /\ left' = [left EXCEPT ![t] = j.retries]
  /\ subpos' = [subpos EXCEPT ![t] = ctr + 1]
  /\ Enqueue({t}, now, now)
  /\ prev' = now
  /\ UNCHANGED <<hwm, now, live, deadAt, lastUse, at, refused, outcome, loc, want>>
  /\ Snap

(* a result that is not owed any more changes nothing *)
Owed(t, e) == t \in Tasks /\ st[t] = "run" /\ at[t] = e
\* an aborted task is not retried
Final(t, r) == r \in {"ok", "abort"} \/ (r = "err" /\ left[t] = 0)
OutOf(r) == IF r = "ok" THEN "ok" ELSE "err"
ResultEff(t, e, r, tag) ==
  /\ BeginStep(IF Owed(t, e) THEN "result" ELSE "noop")
  /\ prev' = now
  /\ IF ~Owed(t, e)
     THEN UNCHANGED <<hwm, now, live, deadAt, lastUse, ctr, job, st, at, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want>>
     ELSE IF Final(t, r)
     THEN /\ st' = [st EXCEPT ![t] = "reply"]
          /\ outcome' = [outcome EXCEPT ![t] = OutOf(r)]
          /\ loc' = [loc EXCEPT ![t] = e]
          /\ at' = [at EXCEPT ![t] = 0]
          /\ want' = [want EXCEPT ![t] = [s |-> OutOf(r), src |-> e, tag |-> tag]]
          /\ UNCHANGED <<hwm, now, live, deadAt, lastUse, ctr, job, left, refused, sinceLo, sinceHi, qpos, subpos>>
     ELSE /\ st' = [st EXCEPT ![t] = "wait"]
          /\ at' = [at EXCEPT ![t] = 0]
          /\ left' = [left EXCEPT ![t] = IF r = "err" THEN @ - 1 ELSE @]
          /\ refused' = [refused EXCEPT ![t] = @ \cup {e}]
          /\ Enqueue({t}, now, now)
          /\ UNCHANGED <<hwm, now, live, deadAt, lastUse, job, subpos, outcome, loc, want>>
  /\ Snap

RegisterEff(e) ==
  /\ BeginStep(IF e \in live THEN "noop" ELSE "reg")
  /\ prev' = now
  /\ live' = live \cup {e}
  /\ UNCHANGED <<hwm, now, deadAt, lastUse, ctr, job, st, at, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want>>
  /\ Snap

UnregisterEff(e) ==
  /\ BeginStep("unreg")
  /\ prev' = now
  /\ live' = live \ {e}
  /\ deadAt' = [deadAt EXCEPT ![e] = now]
  /\ UNCHANGED <<hwm, now, lastUse, ctr, job, st, at, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want>>
  /\ Snap

Stranded(t, n) == st[t] = "run" /\ at[t] \notin live /\ n >= deadAt[at[t]] + GraceMax
(* time passes; tasks stranded on engines dead for longer than the grace period go back to the
   queue when they have retries left; otherwise an engine-died answer is owed *)
TickEff(n) ==
  /\ BeginStep("tick")
  /\ now' = n /\ prev' = now
  /\ LET lost == { t \in Tasks : Stranded(t, n) }
         again == { t \in lost : left[t] > 0 }
         dead == lost \ again
     IN /\ st' = [t \in Tasks |-> IF t \in again THEN "wait" ELSE IF t \in dead THEN "reply" ELSE st[t]]
        /\ at' = [t \in Tasks |-> IF t \in lost THEN 0 ELSE at[t]]
        /\ left' = [t \in Tasks |-> IF t \in again THEN left[t] - 1 ELSE left[t]]
        /\ refused' = [t \in Tasks |-> IF t \in again THEN refused[t] \cup {at[t]} ELSE refused[t]]
        /\ outcome' = [t \in Tasks |-> IF t \in dead THEN "err" ELSE outcome[t]]
        /\ loc' = [t \in Tasks |-> IF t \in dead THEN at[t] ELSE loc[t]]
        /\ want' = [t \in Tasks |-> IF t \in dead THEN [s |-> "died", src |-> at[t], tag |-> 0] ELSE want[t]]
        /\ Enqueue(again, now, n)
  /\ UNCHANGED <<hwm, live, deadAt, lastUse, job, subpos>>
  /\ Snap

RunEff(t, e) ==
  /\ st' = [st EXCEPT ![t] = "run"]
  /\ at' = [at EXCEPT ![t] = e]
  /\ lastUse' = [lastUse EXCEPT ![e] = ctr + 1]
  /\ ctr' = ctr + 1
  /\ UNCHANGED <<hwm, now, prev, live, deadAt, job, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want, busy, kinds, snap, doomed0>>
  /\ ran' = TRUE

ReplyRelayEff(t) ==
  /\ st' = [st EXCEPT ![t] = "done"]
  /\ UNCHANGED <<hwm, now, prev, live, deadAt, lastUse, ctr, job, at, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want, busy, kinds, snap, doomed0, ran>>

ReplyFailEff(t) ==
  /\ st' = [st EXCEPT ![t] = "done"]
  /\ outcome' = [outcome EXCEPT ![t] = "err"]
  /\ at' = [at EXCEPT ![t] = 0]
  /\ UNCHANGED <<hwm, now, prev, live, deadAt, lastUse, ctr, job, left, refused, sinceLo, sinceHi, qpos, subpos, loc, want, busy, kinds, snap, doomed0, ran>>

EndEff == busy' = FALSE /\ kinds' = {} /\ snap' = {} /\ prev' = now /\ doomed0' = {} /\ ran' = FALSE
          /\ UNCHANGED <<hwm, now, live, deadAt, lastUse, ctr, job, st, at, left, refused, sinceLo, sinceHi, qpos, subpos, outcome, loc, want>>

(* ------------------------------ guards of outputs -------------------------- *)
MayTimeout(t)  == job[t].timeout > 0 /\ now >= sinceLo[t] + job[t].timeout
MustTimeout(t) == job[t].timeout > 0 /\ now >= sinceHi[t] + job[t].timeout + 1  \* clock granularity
FailReasonOK(t, why) ==
  CASE why = "TaskTimeout" -> MayTimeout(t)
    [] why = "InvalidDependency" -> Invalid(t)
    [] why = "ImpossibleDependency" -> Hopeless(t)
    [] OTHER -> FALSE

SomeRoom == \E e \in live : HasRoom(e)
MustFail(t) ==   \* owed a failure answer at the end of the step
  \/ Invalid(t)
  \/ Unreachable(t) /\ (SomeRoom \/ (~ran /\ t \notin doomed0))
  \/ AfterMet(t) /\ Hopeless(t) /\ SomeRoom
  \/ MustTimeout(t)
Starved(t) == AfterMet(t) /\ ~Invalid(t) /\ ~Unreachable(t) /\ Eligible(t) # {}

(* ------------------------------ the design -------------------------------- *)
RunGuard(t, e) ==
  /\ busy /\ st[t] = "wait" /\ e \in live /\ AfterMet(t) /\ PlacementOK(t, e) /\ HasRoom(e) /\ ~Invalid(t)
  /\ LeastLoaded(t, e) /\ Overtaken(t, e) = {}
Run(t, e) == RunGuard(t, e) /\ RunEff(t, e)
ReplyRelay(t) == busy /\ st[t] = "reply" /\ ReplyRelayEff(t)
ReplyFail(t, why) == busy /\ st[t] = "wait" /\ FailReasonOK(t, why) /\ ReplyFailEff(t)
EndOK == /\ \A t \in Tasks : st[t] # "reply"
         /\ \A t \in Waiting : ~MustFail(t) /\ ~Starved(t)
EndStep == busy /\ EndOK /\ EndEff
=============================================================================
