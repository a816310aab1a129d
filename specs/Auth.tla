-------------------------------- MODULE Auth --------------------------------
(* Who may cause anything: messages carry a signature that only a holder of the cluster's key can make.
   A request goes from a client through a scheduler to an engine, its reply the same way back, and the
   scheduler tells the hub of both.  Some schedulers only copy frames; who acts on a message checks it first.
   An intruder is connected everywhere and sends what it likes, but signs nothing genuine. *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Genuine,      \* what users ask for
          Forged,       \* what the intruder makes up
          Careful       \* the parties that check signatures
Ids == Genuine \cup Forged
Parties == {"mux", "task", "hub", "engine", "client"}
VARIABLES net,     \* messages under way: [id, kind, key, to]
          ran,     \* what engines ran
          rec,     \* what the hub recorded, by kind
          res,     \* what clients got results for
          sent     \* what users have asked for
avars == <<net, ran, rec, res, sent>>
M(id, kind, key, to) == [id |-> id, kind |-> kind, key |-> key, to |-> to]
AInit == net = {} /\ ran = {} /\ rec = {} /\ res = {} /\ sent = {}
Ask(id, via) == /\ id \in Genuine \ sent /\ sent' = sent \cup {id} /\ net' = net \cup {M(id, "req", TRUE, via)} /\ UNCHANGED <<ran, rec, res>>
\* the intruder's messages may bear the name of a genuine one
Forge(id, kind, to) == net' = net \cup {M(id, kind, FALSE, to)} /\ UNCHANGED <<ran, rec, res, sent>>
Accepts(m) == m.key \/ m.to \notin Careful
Relay(m) ==
  /\ m.to \in {"mux", "task"}
  /\ net' = (net \ {m}) \cup (IF Accepts(m) THEN {[m EXCEPT !.to = IF m.kind = "req" THEN "engine" ELSE "client"], [m EXCEPT !.to = "hub"]} ELSE {[m EXCEPT !.to = "hub"]})
  /\ UNCHANGED <<ran, rec, res, sent>>
Record(m) == /\ m.to = "hub" /\ net' = net \ {m} /\ rec' = (IF Accepts(m) THEN rec \cup {<<m.id, m.kind>>} ELSE rec) /\ UNCHANGED <<ran, res, sent>>
Run(m) == /\ m.to = "engine" /\ m.kind = "req"
          /\ IF Accepts(m) THEN /\ ran' = ran \cup {m.id} /\ net' = (net \ {m}) \cup {M(m.id, "rep", TRUE, "mux")} ELSE ran' = ran /\ net' = net \ {m}
          /\ UNCHANGED <<rec, res, sent>>
Resolve(m) == /\ m.to = "client" /\ m.kind = "rep" /\ net' = net \ {m} /\ res' = (IF Accepts(m) THEN res \cup {m.id} ELSE res) /\ UNCHANGED <<ran, rec, sent>>
Drop(m) == /\ (m.to = "engine" /\ m.kind # "req") \/ (m.to = "client" /\ m.kind # "rep")
           /\ net' = net \ {m} /\ UNCHANGED <<ran, rec, res, sent>>
Deliver(m) == Relay(m) \/ Record(m) \/ Run(m) \/ Resolve(m) \/ Drop(m)
-----------------------------------------------------------------------------
\* nothing happens that no holder of the key asked for
NoEffect == ran \subseteq sent /\ {r[1] : r \in rec} \subseteq sent /\ res \subseteq ran
\* a result is recorded or delivered only after the run
InOrder == \A id \in Ids : <<id, "rep">> \in rec => id \in ran
\* and what was asked for still gets done
Done == net = {} => ran = sent /\ res = sent /\ \A id \in sent : {<<id, "req">>, <<id, "rep">>} \subseteq rec
=============================================================================
