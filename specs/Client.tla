------------------------------- MODULE Client -------------------------------
(* What a client promises: every submitted call has one future that is resolved exactly once, with the
   outcome of a run of that call; views and results tell the truth about it.  Outcomes are numbers: a
   positive token is what a run returned, a negative one is what a run raised. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Died == -1000001
Aborted == -1000002
Other == -1000003
NoEng == -1000004
VARIABLES
  fut,     \* calls: [c, es, any, coal, dep, deps, k, retries, mode, how, func]
  res,     \* [st |-> "none"/"ok"/"err", v |-> outcomes]
  runs,    \* what engines did for a call: sequence of [e, tok, how, out]
  eng,     \* engine -> "up" / "killed"
  table,   \* client -> set of <<id, engine>>
  idOf,    \* engine -> its id, and whether it was there before the clients
  abreq    \* calls whose abort an engine was asked for: set of <<f, e>>
clVars == <<fut, res, runs, eng, table, idOf, abreq>>
Fs == 1..Len(fut)
Resolved(f) == res[f].st # "none"
Err(f) == res[f].st = "err"
UpEngines == {e \in DOMAIN eng : eng[e] = "up"}
Direct(f) == ~fut[f].any /\ fut[f].coal = <<>>
\* who may run a call
MayRun(f, e) == IF fut[f].any THEN fut[f].es = {} \/ e \in fut[f].es ELSE e \in fut[f].es
RunsBy(f, e) == {i \in DOMAIN runs[f] : runs[f][i].e = e}
\* a load balanced call is run once, and again only as often as its submitter allowed or while an engine refuses it
RunOk(f, e) == /\ MayRun(f, e)
               /\ ~fut[f].any => RunsBy(f, e) = {}
               /\ fut[f].any => Cardinality({i \in DOMAIN runs[f] : runs[f][i].how # "unmet"}) <= fut[f].retries
\* calls that one client sends straight to one engine are run in the order they were submitted
InOrder(f, e) == ~Direct(f) \/ fut[f].mode # "direct" \/
                 \A g \in Fs : g > f /\ fut[g].mode = "direct" /\ fut[g].c = fut[f].c => RunsBy(g, e) = {}
\* an engine whose code failed drops the code that was already waiting there
Stopped(f) == fut[f].func = "execute" /\ \E g \in Fs : \E i \in DOMAIN runs[g] : runs[g][i].x /\ runs[g][i].how = "fail" /\ MayRun(f, runs[g][i].e)
AbortAsked(f) == Stopped(f) \/ \E p \in abreq : p[1] \in {0, f} /\ MayRun(f, p[2])
Outcome(f, t) == \/ t > 0 /\ \E i \in DOMAIN runs[f] : runs[f][i].tok = t /\ runs[f][i].how = "ok"
                 \/ t < 0 /\ \E i \in DOMAIN runs[f] : runs[f][i].tok = -t /\ runs[f][i].how = "fail"
                 \/ t = Aborted /\ AbortAsked(f)
                 \/ t = Died /\ \E e \in DOMAIN eng : eng[e] = "killed" /\ MayRun(f, e)
                 \/ t = Other /\ fut[f].dep
                 \/ t = NoEng /\ fut[f].any
\* may this be the outcome of the call?
Justified(f, st, v) ==
  IF fut[f].coal = <<>> \/ st = "err"
  THEN Len(v) = 1 /\ (st = "ok") = (v[1] > 0) /\ Outcome(f, v[1])
  ELSE /\ Len(v) = Len(fut[f].coal)
       /\ \A e \in fut[f].es : \E i \in DOMAIN v : v[i] > 0 /\ \E j \in RunsBy(f, e) : runs[f][j].tok = v[i] /\ runs[f][j].how = "ok"
\* the only calls that may stay without a result: load balanced, and every engine is gone, has refused it or failed it;
\* and those that wait for such a call
RECURSIVE MayPend(_)
MayPend(f) == /\ fut[f].any
              /\ \/ \A e \in UpEngines : \E i \in RunsBy(f, e) : runs[f][i].how # "ok"
                 \/ \E g \in fut[f].deps : g < f /\ ~Resolved(g) /\ MayPend(g)
EngOf(f, t) == LET S == {runs[f][i].e : i \in {j \in DOMAIN runs[f] : runs[f][j].tok = (IF t < 0 THEN -t ELSE t)}}
               IN IF S = {} THEN 0 ELSE CHOOSE e \in S : TRUE
-----------------------------------------------------------------------------
NoRes == [st |-> "none", v |-> <<>>]
CInit == fut = <<>> /\ res = <<>> /\ runs = <<>> /\ eng = <<>> /\ table = <<>> /\ idOf = <<>> /\ abreq = {}
EngEff(e) == eng' = [x \in DOMAIN eng \cup {e} |-> IF x = e THEN "up" ELSE eng[x]]
KillEff(e) == eng' = [eng EXCEPT ![e] = "killed"]
SubEff(recs) == /\ fut' = fut \o recs
                /\ res' = res \o [i \in DOMAIN recs |-> NoRes]
                /\ runs' = runs \o [i \in DOMAIN recs |-> <<>>]
RunEff(f, r) == runs' = [runs EXCEPT ![f] = Append(@, r)]
\* the first thing a client learns about a call is what its future says, for good
ReplyEff(f, st, v) == res' = [res EXCEPT ![f] = IF @.st = "none" THEN [st |-> st, v |-> v] ELSE @]
RegEff(c, id, e) == /\ table' = [x \in DOMAIN table \cup {c} |-> IF x = c THEN {p \in table[c] : p[1] # id} \cup {<<id, e>>} ELSE table[x]]
                    /\ idOf' = [x \in DOMAIN idOf \cup {e} |-> IF x = e THEN [id |-> id, early |-> x \in DOMAIN idOf /\ idOf[x].early] ELSE idOf[x]]
\* when an engine is gone, the calls that could run only there are resolved with an error
UnregEff(c, id, e) == /\ table' = [table EXCEPT ![c] = {p \in @ : p[1] # id}]
                      /\ res' = [f \in Fs |-> IF fut[f].c = c /\ ~Resolved(f) /\ ~fut[f].any /\ e \in fut[f].es
                                             THEN [st |-> "err", v |-> <<Died>>] ELSE res[f]]
=============================================================================
