------------------------------ MODULE Broadcast ------------------------------
(* Broadcast requests as clients and engines see them: each target gets one copy; *)
(* replies come back one by one, or as one coalesced reply.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Msgs, Engines
VARIABLES req,     \* msg -> [targets: sequence of engines, coal] or NoReq
          copied,  \* msg -> engines that have got their copy
          answer,  \* msg -> engine -> [st, tok] (st: "none", "ok", "error", "aborted")
          outed    \* msg -> engines whose answer has been passed on (coalesced: all at once)
bVars == <<req, copied, answer, outed>>
NoReq == [targets |-> <<>>, coal |-> FALSE]
NoAns == [st |-> "none", tok |-> 0]
Rng(s) == { s[i] : i \in 1..Len(s) }
BInit == /\ req = [m \in Msgs |-> NoReq] /\ copied = [m \in Msgs |-> {}]
         /\ answer = [m \in Msgs |-> [e \in Engines |-> NoAns]] /\ outed = [m \in Msgs |-> {}]
Targets(m) == Rng(req[m].targets)
Answered(m) == { e \in Targets(m) : answer[m][e].st # "none" }
SubmitEff(m, ts, c) == req' = [req EXCEPT ![m] = [targets |-> ts, coal |-> c]] /\ UNCHANGED <<copied, answer, outed>>
CopyOk(m, e) == e \in Targets(m) \ copied[m]
CopyEff(m, e) == copied' = [copied EXCEPT ![m] = @ \cup {e}] /\ UNCHANGED <<req, answer, outed>>
AnswerEff(m, e, st, tok) == answer' = [answer EXCEPT ![m][e] = [st |-> st, tok |-> tok]] /\ UNCHANGED <<req, copied, outed>>
\* plain: one reply per engine, as the engine sent it
OutOk(m, e, st, tok) == ~req[m].coal /\ e \in Answered(m) \ outed[m] /\ answer[m][e] = [st |-> st, tok |-> tok]
OutEff(m, e) == outed' = [outed EXCEPT ![m] = @ \cup {e}] /\ UNCHANGED <<req, copied, answer>>
\* coalesced: one reply when all have answered
CoalDue(m) == req[m].coal /\ req[m].targets # <<>> /\ Answered(m) = Targets(m) /\ outed[m] = {}
Failed(m) == { e \in Targets(m) : answer[m][e].st \notin {"none", "ok"} }
CoalOk(m, st, es, toks) ==
  /\ CoalDue(m) /\ Len(es) = Len(req[m].targets) /\ Rng(es) = Targets(m)
  /\ IF Failed(m) = {} THEN st = "ok" /\ Len(toks) = Len(es) /\ \A i \in 1..Len(es) : toks[i] = answer[m][es[i]].tok
     ELSE \E e \in Failed(m) : st = answer[m][e].st
CoalEff(m) == outed' = [outed EXCEPT ![m] = Targets(m)] /\ UNCHANGED <<req, copied, answer>>
\* nothing is under way: every copy has been delivered, every answer passed on
Settled(m) == copied[m] = Targets(m) /\ (IF req[m].coal THEN ~CoalDue(m) ELSE outed[m] = Answered(m))
=============================================================================
