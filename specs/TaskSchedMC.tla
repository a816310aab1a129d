---------------------------- MODULE TaskSchedMC ----------------------------
(* Exhaustive exploration of the design, and generation of environment scripts. *)
EXTENDS TaskSched, Json
CONSTANTS HWM, Gen, MaxOps, MaxNow, Rich
VARIABLES hist, ops
mcvars == <<schedVars, hist, ops>>
Z(v) == [t \in Tasks |-> v]
D(ids, a, s, f) == [ids |-> ids, all |-> a, s |-> s, f |-> f]
J(af, fo, tg, r, to) == [after |-> af, follow |-> fo, targets |-> tg, retries |-> r, timeout |-> to, client |-> 1]
Before(t) == { u \in Tasks : u < t }
DepsOf(t) ==
  {NoDep} \cup (IF t = 1 THEN {} ELSE
    {D({t-1}, TRUE, TRUE, FALSE), D({t-1}, TRUE, FALSE, TRUE), D(Before(t), TRUE, TRUE, FALSE), D(Before(t), FALSE, TRUE, TRUE)}
    \cup IF Rich THEN {D(Before(t), FALSE, TRUE, FALSE), D(Before(t), TRUE, TRUE, TRUE), D({1}, FALSE, FALSE, TRUE), D({1, 99}, TRUE, TRUE, FALSE)} ELSE {})
Follows(t) == {NoDep} \cup (IF t = 1 THEN {} ELSE {D({t-1}, TRUE, TRUE, FALSE)} \cup (IF Rich THEN {D(Before(t), TRUE, TRUE, TRUE), D(Before(t), FALSE, TRUE, FALSE)} ELSE {}))
Shapes(t) ==
  { J(a, NoDep, {}, 0, 0) : a \in DepsOf(t) }
  \cup { J(NoDep, f, {}, 0, 0) : f \in Follows(t) }
  \cup { J(NoDep, NoDep, {1}, r, 0) : r \in {0, 1} }
  \cup { J(NoDep, NoDep, {}, 1, 0), J(NoDep, NoDep, {}, 0, 3) }
  \cup IF Rich THEN { J(a, f, tg, r, to) : a \in DepsOf(t), f \in Follows(t), tg \in {{}, {1}, {1, 2}}, r \in {0, 2}, to \in {0, 30} } ELSE {}

Init ==
  /\ hwm \in HWM /\ now = 0 /\ prev = 0 /\ live = {} /\ deadAt = [e \in Engines |-> 0]
  /\ lastUse = [e \in Engines |-> 0] /\ ctr = 0 /\ job = Z(NoJob) /\ st = Z("new") /\ at = Z(0) /\ left = Z(0)
  /\ refused = Z({}) /\ sinceLo = Z(0) /\ sinceHi = Z(0) /\ qpos = Z(0) /\ subpos = Z(0)
  /\ outcome = Z("none") /\ loc = Z(0) /\ want = Z(NoWant) /\ busy = FALSE /\ kinds = {} /\ snap = {} /\ doomed0 = {} /\ ran = FALSE
  /\ hist = <<>> /\ ops = 0

Log(r) == hist' = (IF Gen THEN Append(hist, r) ELSE hist) /\ ops' = ops + 1
NextTask == CHOOSE t \in Tasks : st[t] = "new" /\ \A u \in Tasks : u < t => st[u] # "new"
EverReg == { e \in Engines : e \in live \/ deadAt[e] > 0 }
Gone(e) == e \notin live /\ deadAt[e] > 0

Input ==
  /\ ~busy /\ ops < MaxOps
  /\ \/ /\ \E t \in Tasks : st[t] = "new"
        /\ \E j \in Shapes(NextTask) : SubmitEff(NextTask, j) /\
             Log([k |-> "submit", t |-> NextTask, after |-> j.after, follow |-> j.follow, targets |-> j.targets, retries |-> j.retries, timeout |-> j.timeout])
     \/ \E t \in Tasks : /\ st[t] = "run" /\ \E r \in {"ok", "err", "unmet", "abort"} : ResultEff(t, at[t], r, 0) /\ Log([k |-> "result", t |-> t, r |-> r])
     \/ \E e \in Engines : /\ e \notin EverReg /\ \A o \in Engines : o < e => o \in EverReg
                           /\ RegisterEff(e) /\ Log([k |-> "reg", e |-> e])
     \/ \E e \in live : UnregisterEff(e) /\ Log([k |-> "unreg", e |-> e])
     \/ \E d \in {1, 4, 20} : now + d <= MaxNow /\ TickEff(now + d) /\ Log([k |-> "tick", d |-> d])

Output ==
  /\ \/ \E t \in Tasks, e \in live : Run(t, e)
     \/ \E t \in Tasks : ReplyRelay(t)
     \/ \E t \in Waiting, why \in {"TaskTimeout", "InvalidDependency", "ImpossibleDependency"} : ReplyFail(t, why)
     \/ EndStep
  /\ UNCHANGED <<hist, ops>>
Stop == ~busy /\ ops = MaxOps /\ UNCHANGED mcvars
Idle == ~busy /\ UNCHANGED mcvars
Next == Input \/ Output \/ Idle
Spec == Init /\ [][Next]_mcvars
FairSpec == Spec /\ WF_mcvars(Output)

(* ---- properties of the design ---- *)
TypeOK == \A t \in Tasks : st[t] \in {"new", "wait", "run", "reply", "done"} /\ (st[t] = "run") = (at[t] # 0)
CapOK == hwm > 0 => \A e \in Engines : Load(e) <= hwm
AnswerOnce == [][\A t \in Tasks : st[t] = "done" => st'[t] = "done" /\ outcome'[t] = outcome[t]]_mcvars
NotRunAfterReply == [][\A t \in Tasks : (st[t] # "run" /\ st'[t] = "run") => st[t] = "wait"]_mcvars
OnlyWhenMet == [][\A t \in Tasks : (st[t] # "run" /\ st'[t] = "run") =>
                    MetBy(job[t].after, Completed, Failed) /\ at'[t] \in live /\ (job[t].targets = {} \/ at'[t] \in job[t].targets)]_mcvars
RetryBound == \A t \in Tasks : st[t] # "new" => left[t] >= 0 /\ left[t] <= job[t].retries
NeverLost == (~busy /\ \A t \in Tasks : st[t] # "run") => \A t \in Waiting : ~Starved(t) /\ ~(Unreachable(t) /\ SomeRoom)
StepsEnd == busy ~> ~busy
(* ---- script generation (simulation) ---- *)
SetSeq(S) == LET RECURSIVE f(_)
                 f(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x <= y IN <<m>> \o f(X \ {m})
             IN f(S)
Jop(o) == IF o.k # "submit" THEN o ELSE
  [o EXCEPT !.targets = SetSeq(@), !.after = [@ EXCEPT !.ids = SetSeq(@)], !.follow = [@ EXCEPT !.ids = SetSeq(@)]]
Emit == (Gen /\ ops = MaxOps /\ ~busy) =>
   PrintT("SCRIPT " \o ToJson([cfg |-> [hwm |-> hwm, scheme |-> "leastload"], ops |-> [i \in 1..Len(hist) |-> Jop(hist[i])]]) \o " TPIRCS")
=============================================================================
