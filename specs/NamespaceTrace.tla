--------------------------- MODULE NamespaceTrace ---------------------------
(* ops: o |-> what was asked for (c client, mode, es engines in order, any, progs one for each engine); ns: what is in
   the namespace of an engine; outs: o |-> engine |-> how its program ended; dead: engines that died.              *)
EXTENDS Namespace, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ops, ns, outs, dead, clr, ti, l, viol
mvars == <<ops, ns, outs, dead, clr>>
tvars == <<mvars, ti, l, viol>>
Ev == Traces[ti].ev[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ ops = <<>> /\ ns = [e \in 1..12 |-> <<>>] /\ outs = <<>> /\ dead = {} /\ clr = <<>>
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Obs(tags) == UNCHANGED mvars /\ Add(tags)
-----------------------------------------------------------------------------
Tag(o) == IF ops[o].ret \in {"scatter", "gather"} THEN "C10" ELSE "E02"
Ins(i) == [I0 EXCEPT !.op = i.op, !.d = i.d, !.x = i.x, !.y = i.y, !.val = i.val]
ProgAt(o, e) == LET p == ops[o].progs[IF ops[o].any THEN 1 ELSE CHOOSE j \in DOMAIN ops[o].es : ops[o].es[j] = e] IN [j \in DOMAIN p |-> Ins(p[j])]
\* a scatter names the sequence only; each engine gets its part
DoOp == /\ ops' = Put(ops, Ev.o, [c |-> Ev.c, mode |-> Ev.mode, es |-> Ev.es, any |-> Ev.any, single |-> Ev.single, loud |-> Ev.loud, ret |-> Ev.ret, dist |-> Ev.dist,
              progs |-> IF Ev.ret = "scatter" THEN [j \in DOMAIN Ev.es |-> LET pv == PartVal(Ev.dist, Ev.seq, Len(Ev.es), j) IN
                          <<[op |-> "set", d |-> Ev.key, x |-> "", y |-> "", val |-> IF Ev.flat /\ Len(pv.v) = 1 THEN [k |-> IF Ev.seq.k = "A" THEN "R" ELSE "s", v |-> pv.v] ELSE pv]>>]
                        ELSE Ev.progs])
        /\ outs' = Put(outs, Ev.o, <<>>) /\ UNCHANGED <<ns, dead, clr>> /\ Add(<<>>)
DoRun ==
  IF Ev.o \notin DOMAIN ops THEN ns' = [ns EXCEPT ![Ev.e] = Ev.ns] /\ UNCHANGED <<ops, outs, dead, clr>> /\ Add(T(FALSE, "E02", "an engine ran something that nobody asked for"))
  ELSE LET o == Ev.o e == Ev.e there == ops[o].any \/ e \in SetOf(ops[o].es) r == IF Ev.ab THEN [ns |-> ns[e], st |-> "abort", out |-> <<>>] ELSE IF there THEN Exec(ns[e], ProgAt(o, e), <<>>) ELSE [ns |-> ns[e], st |-> "", out |-> <<>>] IN
    /\ ns' = [ns EXCEPT ![e] = Ev.ns] /\ outs' = [outs EXCEPT ![o] = Put(@, e, r)] /\ UNCHANGED <<ops, dead, clr>>
    /\ Add(T(there, Tag(o), "a request was run by an engine it was not meant for")
           \o T(e \notin DOMAIN outs[o], Tag(o), "a request was run twice by an engine")
           \* an error that is not silent makes the engine refuse the code that waits there
           \o T(Ev.ab => ops[o].loud > 0 /\ \E p \in DOMAIN ops : ops[p].loud = 2 /\ e \in DOMAIN outs[p] /\ outs[p][e].st \notin {"ok", ""}, Tag(o), "a request was refused for no reason")
           \o T(~there \/ Ev.ns = r.ns, Tag(o), "the namespace is not what the request makes of it")
           \o T(ops[o].mode = "lb" \/ \A p \in DOMAIN ops : (p > o /\ ops[p].c = ops[o].c /\ ops[p].mode = ops[o].mode) => e \notin DOMAIN outs[p], Tag(o), "a request was overtaken by a later one"))
DoClear == /\ ns' = [ns EXCEPT ![Ev.e] = Ev.ns] /\ UNCHANGED <<ops, outs, dead>>
           /\ clr' = (IF Ev.o \in DOMAIN clr THEN [clr EXCEPT ![Ev.o].done = @ \cup {Ev.e}] ELSE clr)
           /\ Add(T(Ev.ns = <<>>, "E02", "something is left after a namespace was cleared")
                  \o T(Ev.o \in DOMAIN clr /\ Ev.e \in SetOf(clr[Ev.o].es) /\ Ev.e \notin clr[Ev.o].done, "E02", "a namespace was cleared that nobody asked to clear"))
DoClr == clr' = Put(clr, Ev.o, [es |-> Ev.es, done |-> {}]) /\ UNCHANGED <<ops, ns, outs, dead>> /\ Add(<<>>)
DoClrd == Obs(T(Ev.st = "err" \/ SetOf(clr[Ev.o].es) \subseteq clr[Ev.o].done \cup dead, "E02", "clear returned before the namespaces were cleared")
              \o T(Ev.st # "err" \/ SetOf(clr[Ev.o].es) \cap dead # {}, "E02", "clear failed"))
\* the namespaces when nothing is going on
DoSnap == Obs(T(Ev.ns = ns[Ev.e], "E02", "a namespace changed on its own"))
DoKill == dead' = dead \cup {Ev.e} /\ UNCHANGED <<ops, ns, outs, clr>> /\ Add(<<>>)
-----------------------------------------------------------------------------
O == ops[Ev.o]
Ran(e) == e \in DOMAIN outs[Ev.o]
Ok(e) == Ran(e) /\ outs[Ev.o][e].st = "ok"
Died(e) == e \in dead
ValOk(e, v) == CASE O.ret \in {"none", "scatter"} -> v = <<>>
                 [] OTHER -> v = outs[Ev.o][e].out
ErrOk(e, k) == (Ran(e) /\ outs[Ev.o][e].st \notin {"ok", ""} /\ k = outs[Ev.o][e].st) \/ (k = "died" /\ Died(e))
Es == IF O.any THEN <<Ev.at>> ELSE O.es
\* the engines that must have failed, and those that may have
Must == {j \in DOMAIN Es : ~Ok(Es[j])}
May == {j \in DOMAIN Es : ~Ok(Es[j]) \/ Died(Es[j])}
RECURSIVE Errs(_, _)
\* the errors are those of engines in order
Errs(j, i) == IF i > Len(Ev.errs) THEN \A x \in Must : x < j
              ELSE \E x \in May : x >= j /\ (\A y \in Must : y >= j => y >= x) /\ Ev.errs[i][1] \in {Es[x], IF Ev.errs[i][2] \in {"abort", "died"} THEN 0 ELSE Es[x]} /\ ErrOk(Es[x], Ev.errs[i][2]) /\ Errs(x + 1, i + 1)
AnyOk == \E e \in DOMAIN outs[Ev.o] : ValOk(e, Ev.v[1]) /\ Ok(e)
AnyErr == \E e \in 1..12 : ErrOk(e, Ev.errs[1][2]) /\ Ev.errs[1][1] \in {e, 0}
DoRes == Obs(T(
  CASE Ev.st = "ok" /\ O.any -> Len(Ev.v) = 1 /\ AnyOk
    [] Ev.st = "err" /\ O.any -> Len(Ev.errs) = 1 /\ AnyErr
    [] Ev.st = "odd" -> O.ret = "gather" /\ \A j \in DOMAIN Es : Ok(Es[j]) /\ Loose(O.dist, [i \in DOMAIN Es |-> outs[Ev.o][Es[i]].out[1]])
    [] Ev.st = "ok" /\ O.ret = "gather" -> /\ \A j \in DOMAIN Es : Ok(Es[j])
                                           /\ GatherOk(O.dist, [j \in DOMAIN Es |-> outs[Ev.o][Es[j]].out[1]], Ev.v[1][1])
    [] Ev.st = "ok" -> Len(Ev.v) = Len(Es) /\ \A j \in DOMAIN Es : Ok(Es[j]) /\ ValOk(Es[j], Ev.v[j])
    [] Ev.st = "err" -> Ev.errs # <<>> /\ Errs(1, 1)
    [] Ev.st = "wait" -> \A j \in DOMAIN Es : Ran(Es[j]) \/ Died(Es[j])
    [] OTHER -> FALSE, Tag(Ev.o), "the result is not what the engines made of the request (" \o Ev.st \o ")"))
\* a request that was refused at once
DoRef == Obs(T(FALSE, Tag(Ev.o), "a request was refused (" \o Ev.ex \o ")"))
Step == CASE Ev.k = "op" -> DoOp [] Ev.k = "run" -> DoRun [] Ev.k = "clear" -> DoClear [] Ev.k = "clr" -> DoClr [] Ev.k = "clrd" -> DoClrd [] Ev.k = "snap" -> DoSnap
          [] Ev.k = "kill" -> DoKill [] Ev.k = "res" -> DoRes [] Ev.k = "ref" -> DoRef
RECURSIVE JoinT(_)
JoinT(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o JoinT(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE JoinT(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<mvars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
