-------------------------------- MODULE Hub --------------------------------
(* The hub of the controller: engine membership (registration, heartbeats,     *)
(* departure, announcements) and the record of every request it has seen       *)
(* (pending / completed, per-engine queues, purge, resubmission, restart).     *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Uuids, Msgs
VARIABLES now,    \* seconds
          rt,     \* registration timeout, also the grace period of a lost engine
          reg,    \* uuid -> id of a registered engine, or -1
          preg,   \* uuid -> [id, dl]: accepted registration waiting for its first heartbeat (id = -1: none)
          used,   \* ids that have been handed out
          ever,   \* ids that have belonged to a registered engine
          strand, \* set of [dl, ms]: direct requests outstanding on a lost engine
          rec,    \* request -> record
          comp    \* uuid -> requests completed there since it registered
hubVars == <<now, rt, reg, preg, used, ever, strand, rec, comp>>

NoIO == [stdout |-> "", stderr |-> "", execute_input |-> "", execute_result |-> "", error |-> ""]
\* ok: the set of states an observer may be told: "pend", "died", or the label of a result
NoRec == [kind |-> "none", sub |-> FALSE, db |-> FALSE, ok |-> {"pend"}, at |-> 0, un |-> "no", eu |-> 0,
          act |-> FALSE, rank |-> 0, io |-> NoIO]

HubInit == /\ now = 0 /\ reg = [u \in Uuids |-> -1] /\ preg = [u \in Uuids |-> [id |-> -1, dl |-> 0]]
           /\ used = {} /\ ever = {} /\ strand = {} /\ rec = [m \in Msgs |-> NoRec] /\ comp = [u \in Uuids |-> {}]

Registered == { u \in Uuids : reg[u] # -1 }
PendReg == { u \in Uuids : preg[u].id # -1 }
IdsInUse == { reg[u] : u \in Registered } \cup { preg[u].id : u \in PendReg }
UuidOf(i) == CHOOSE u \in Registered : reg[u] = i
IsReg(i) == \E u \in Registered : reg[u] = i

----------------------------------------------------------------------------
(* membership *)
RegAccept(u) == u \notin Registered /\ u \notin PendReg
IdOK(want, i) == IF want >= 0 /\ want \notin IdsInUse THEN i = want
                 ELSE i >= 0 /\ i \notin used /\ i \notin IdsInUse
RegisterEff(u, i) ==
  /\ preg' = [preg EXCEPT ![u] = [id |-> i, dl |-> now + rt]] /\ used' = used \cup {i}
  /\ UNCHANGED <<now, rt, reg, ever, strand, rec, comp>>

\* a heartbeat from each engine of S
Beat(S) ==
  LET new == S \cap PendReg IN
  /\ reg' = [u \in Uuids |-> IF u \in new THEN preg[u].id ELSE reg[u]]
  /\ ever' = ever \cup { preg[u].id : u \in new }
  /\ comp' = [u \in Uuids |-> IF u \in new THEN {} ELSE comp[u]]
BeatEff(S) ==
  /\ Beat(S) /\ preg' = [u \in Uuids |-> IF u \in S THEN [id |-> -1, dl |-> 0] ELSE preg[u]]
  /\ UNCHANGED <<now, rt, used, strand, rec>>

MuxAt(u) == { m \in Msgs : rec[m].kind = "mux" /\ rec[m].act /\ rec[m].at = u }
TaskAt(u) == { m \in Msgs : rec[m].kind = "task" /\ rec[m].act /\ rec[m].at = u }
Unassigned == { m \in Msgs : rec[m].kind = "task" /\ rec[m].act /\ rec[m].un = "yes" }
MaybeUnassigned == { m \in Msgs : rec[m].kind = "task" /\ rec[m].act /\ rec[m].un = "maybe" }

UnregEff(S) == \* the registered engines in S leave
  LET gone == S \cap Registered IN
  /\ reg' = [u \in Uuids |-> IF u \in gone THEN -1 ELSE reg[u]]
  /\ strand' = strand \cup { [dl |-> now + rt, ms |-> MuxAt(u)] : u \in gone }
  /\ rec' = [m \in Msgs |-> IF rec[m].at \in gone THEN [rec[m] EXCEPT !.at = 0] ELSE rec[m]]
  /\ UNCHANGED <<now, rt, preg, used, ever, comp>>
CancelEff(u) == /\ preg' = [preg EXCEPT ![u] = [id |-> -1, dl |-> 0]]
                /\ UNCHANGED <<now, rt, reg, used, ever, strand, rec, comp>>

Die(m) == IF rec[m].act /\ "pend" \in rec[m].ok
          THEN [rec[m] EXCEPT !.ok = (rec[m].ok \ {"pend"}) \cup {"died"}, !.act = FALSE, !.at = 0]
          ELSE rec[m]
\* time passes; S: engines whose first heartbeat had arrived before their registration expired
AdvEff(t, S) ==
  LET due == { x \in strand : x.dl <= t }
      dead == UNION { x.ms : x \in due } IN
  /\ now' = t /\ Beat(S)
  /\ preg' = [u \in Uuids |-> IF u \in S \/ (u \in PendReg /\ preg[u].dl <= t) THEN [id |-> -1, dl |-> 0] ELSE preg[u]]
  /\ strand' = strand \ due
  /\ rec' = [m \in Msgs |-> IF m \in dead THEN Die(m) ELSE rec[m]]
  /\ UNCHANGED <<rt, used>>

\* the controller restarts from its saved engine table; keep: the task database survives
RestartEff(keep) ==
  /\ preg' = [u \in Uuids |-> [id |-> -1, dl |-> 0]] /\ used' = ever /\ strand' = {}
  /\ rec' = [m \in Msgs |-> [rec[m] EXCEPT !.db = rec[m].db /\ keep, !.act = FALSE, !.at = 0, !.un = "no",
                                           !.io = IF keep THEN rec[m].io ELSE NoIO]]
  /\ comp' = [u \in Uuids |-> {}] /\ UNCHANGED <<now, rt, reg, ever>>

----------------------------------------------------------------------------
(* requests and results, as the hub sees them go by *)
SetRec(m, r) == rec' = [rec EXCEPT ![m] = r]
Mem == UNCHANGED <<now, rt, reg, preg, used, ever, strand>>
MReqEff(m, u, rank) ==
  /\ IF u \in Registered
     THEN SetRec(m, [rec[m] EXCEPT !.kind = "mux", !.sub = TRUE, !.db = TRUE, !.at = u, !.eu = u, !.act = TRUE, !.rank = rank])
     ELSE UNCHANGED rec
  /\ Mem /\ UNCHANGED comp
TReqEff(m, rank) ==
  /\ SetRec(m, [rec[m] EXCEPT !.kind = "task", !.sub = TRUE, !.db = TRUE, !.un = "yes", !.act = TRUE,
                              !.rank = IF rec[m].sub THEN rec[m].rank ELSE rank])
  /\ Mem /\ UNCHANGED comp
BReqEff(m, rank) ==
  /\ SetRec(m, [rec[m] EXCEPT !.kind = "bcast", !.sub = TRUE, !.db = TRUE, !.act = TRUE, !.rank = rank])
  /\ Mem /\ UNCHANGED comp
DestEff(m, u) ==
  /\ SetRec(m, IF u \in Registered THEN [rec[m] EXCEPT !.at = u, !.un = "no"]
               ELSE [rec[m] EXCEPT !.at = 0, !.un = IF rec[m].un = "no" THEN "no" ELSE "maybe"])
  /\ Mem /\ UNCHANGED comp
\* r: label; from the engine u
ResEff(m, u, r, aborted) ==
  /\ IF rec[m].kind = "mux" /\ ~(u \in Registered /\ rec[m].at = u)
     THEN \* arrives from a lost engine: may be recorded, or the loss may be reported
          SetRec(m, [rec[m] EXCEPT !.ok = @ \cup {r}]) /\ UNCHANGED comp
     ELSE IF rec[m].act
     THEN /\ SetRec(m, [rec[m] EXCEPT !.ok = {r}, !.act = FALSE, !.at = 0, !.un = "no", !.eu = u])
          /\ comp' = [x \in Uuids |-> IF x = u /\ u \in Registered /\ ~aborted THEN comp[x] \cup {m} ELSE comp[x]]
     ELSE UNCHANGED <<rec, comp>>
  /\ Mem
IOEff(m, name, text) ==
  /\ SetRec(m, [rec[m] EXCEPT !.db = TRUE,
       !.io = [@ EXCEPT ![name] = IF name \in {"stdout", "stderr"} THEN @ \o text ELSE text]])
  /\ Mem /\ UNCHANGED comp

----------------------------------------------------------------------------
(* requests from clients *)
Soft(m) == ~rec[m].sub /\ rec[m].db      \* only output of it has been seen so far
Missing(m) == IF m \notin Msgs THEN TRUE ELSE ~rec[m].db
Unknown(m) == IF m \notin Msgs THEN TRUE ELSE ~rec[m].sub /\ ~rec[m].db
MustErr(S, so) == \E m \in S : Unknown(m) \/ (~so /\ Missing(m))
MayErr(S, so) == \E m \in S : Missing(m) \/ Soft(m)
IsPend(m) == "pend" \in rec[m].ok
IsComp(m) == rec[m].ok # {"pend"}
\* an observation resolves what had been left open
SeenEff(pend, lab) ==
  /\ rec' = [m \in Msgs |-> IF m \in pend THEN [rec[m] EXCEPT !.ok = {"pend"}]
                 ELSE IF \E x \in lab : x[1] = m THEN [rec[m] EXCEPT !.ok = { x[2] : x \in { y \in lab : y[1] = m } },
                        !.act = FALSE] ELSE rec[m]]
  /\ Mem /\ UNCHANGED comp

Blocked(S) == \E m \in S : m \in Msgs /\ rec[m].act
Dropped(S, us) == { m \in Msgs : rec[m].db /\ (m \in S \/ (rec[m].eu \in us /\ ~IsPend(m))) }
PurgeEff(D) == /\ rec' = [m \in Msgs |-> IF m \in D THEN [rec[m] EXCEPT !.db = FALSE, !.io = NoIO] ELSE rec[m]]
               /\ Mem /\ UNCHANGED comp
ResubEff(S, rank) ==  \* S: the new requests
  /\ rec' = [m \in Msgs |-> IF m \in S THEN [NoRec EXCEPT !.kind = "task", !.sub = TRUE, !.db = TRUE, !.act = TRUE, !.rank = rank] ELSE rec[m]]
  /\ Mem /\ UNCHANGED comp

----------------------------------------------------------------------------
(* properties *)
UniqueIds == \A u, v \in Uuids : u # v =>
    /\ (u \in Registered /\ v \in Registered) => reg[u] # reg[v]
    /\ (u \in Registered /\ v \in PendReg) => reg[u] # preg[v].id
    /\ (u \in PendReg /\ v \in PendReg) => preg[u].id # preg[v].id
NotBoth == Registered \cap PendReg = {}
NoOverdue == (\A u \in PendReg : preg[u].dl >= now) /\ (\A x \in strand : x.dl >= now)
\* a request that is being worked on is pending; one listed at an engine is listed at one registered engine only
Placed == \A m \in Msgs : /\ (rec[m].act => "pend" \in rec[m].ok)
                          /\ (rec[m].at # 0 => rec[m].at \in Registered /\ rec[m].act)
                          /\ rec[m].ok # {}
CompDone == \A u \in Uuids : \A m \in comp[u] : "pend" \notin rec[m].ok
\* a direct request on a lost engine does not stay pending for ever
NotForgotten == \A m \in Msgs : (rec[m].kind = "mux" /\ rec[m].act /\ rec[m].at = 0) => \E x \in strand : m \in x.ms
\* a finished record never becomes pending again
Stable == [][\A m \in Msgs : "pend" \notin rec[m].ok => "pend" \notin rec'[m].ok]_hubVars
=============================================================================
