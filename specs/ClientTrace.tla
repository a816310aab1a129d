----------------------------- MODULE ClientTrace -----------------------------
EXTENDS Client, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES ars, got, cbs, idles, wfe, ti, l, viol
vars2 == <<ars, got, cbs, idles, wfe>>
tvars == <<clVars, vars2, ti, l, viol>>
Ev == Traces[ti].ev[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ CInit /\ ars = <<>> /\ got = <<>> /\ cbs = <<>> /\ idles = {} /\ wfe = <<>>
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Same == UNCHANGED <<clVars, vars2>>
RECURSIVE FlatS(_)
FlatS(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatS(Tail(ss))
Incr(s) == \A i \in DOMAIN s : \A j \in DOMAIN s : i < j => s[i] < s[j]
-----------------------------------------------------------------------------
A == ars[Ev.ar]
All(fs) == \A i \in DOMAIN fs : Resolved(fs[i])
Errs(fs) == SelectSeq(fs, LAMBDA f : Err(f))
Code(f) == IF res[f].v = <<>> THEN 0 ELSE res[f].v[1]
Values(a) == IF a.coal THEN res[a.fs[1]].v ELSE [i \in DOMAIN a.fs |-> Code(a.fs[i])]
Codes(fs) == [i \in DOMAIN fs |-> Code(fs[i])]
LateOk(to, el) == to >= 0 /\ el + 1 >= to
\* an error names the engine that raised it
EngsOk(fs, v, e) == Len(e) = Len(v) /\ \A i \in DOMAIN v : \E f \in SetOf(fs) : Code(f) = v[i] /\ (v[i] > Died => e[i] = EngOf(f, v[i]))
GetOk(a) ==
  LET fs == a.fs errs == Errs(fs) IN
  CASE Ev.st = "val" -> \/ All(fs) /\ (Ev.rx = 1 \/ errs = <<>>) /\ Ev.v = Values(a)
                        \/ ~a.single /\ Ev.rw = "exc" /\ Ev.rx = 1 /\ \E f \in SetOf(errs) : Ev.v = <<Code(f)>>
    [] Ev.st = "exc" -> \/ (a.single \/ a.coal) /\ All(fs) /\ errs # <<>> /\ Ev.rx = 0 /\ Ev.v = <<Code(fs[1])>>
                        \/ ~a.single /\ Ev.rw = "exc" /\ Ev.rx = 0 /\ \E f \in SetOf(errs) : Ev.v = <<Code(f)>>
    [] Ev.st = "comp" -> ~a.single /\ ~a.coal /\ All(fs) /\ Ev.rx = 0 /\ errs # <<>> /\ Ev.v = Codes(errs)
    [] Ev.st = "timeout" -> LateOk(Ev.to, Ev.el) /\ ~All(fs) /\ (Ev.rw = "exc" => errs = <<>>)
    [] Ev.st = "hang" -> Ev.to = -1 /\ (\E f \in SetOf(fs) : ~Resolved(f) /\ MayPend(f)) /\ (Ev.rw = "exc" => errs = <<>>)
    [] Ev.st = "done" -> All(fs)
    [] OTHER -> FALSE
GetEngOk(a) == Ev.st \in {"exc", "comp"} => EngsOk(a.fs, Ev.v, Ev.eng)
WaitOk(a) ==
  LET fs == SetOf(a.fs) un == {f \in fs : ~Resolved(f)} bad == {f \in fs : Err(f)} IN
  CASE Ev.st = "yes" -> un = {} [] Ev.st = "no" -> un # {} /\ LateOk(Ev.to, Ev.el)
    [] Ev.st = "sets" -> /\ SetOf(Ev.p) = un /\ SetOf(Ev.d) = fs \ un
                         /\ (un = {} \/ LateOk(Ev.to, Ev.el) \/ (Ev.rw = "first" /\ un # fs) \/ (Ev.rw = "exc" /\ bad # {}))
    [] Ev.st = "hang" -> Ev.to = -1 /\ (\E f \in un : MayPend(f)) /\ (Ev.rw = "first" => un = fs) /\ (Ev.rw = "exc" => bad = {})
    [] OTHER -> FALSE
IterOk(a) ==
  LET n == Len(Ev.ys) fs == a.fs IN
  IF a.single \/ a.coal THEN Ev.st = "single"
  ELSE /\ n <= Len(fs) /\ \A i \in 1..n : Resolved(fs[i]) /\ ~Err(fs[i]) /\ Code(fs[i]) = Ev.ys[i]
       /\ CASE Ev.st = "stop" -> n = Len(fs)
            [] Ev.st \in {"comp", "exc"} -> \/ n < Len(fs) /\ Err(fs[n + 1]) /\ Ev.v = <<Code(fs[n + 1])>>
                                            \/ n = 0 /\ All(fs) /\ Ev.v = Codes(Errs(fs))
            [] Ev.st = "hang" -> n < Len(fs) /\ ~Resolved(fs[n + 1]) /\ MayPend(fs[n + 1])
            [] OTHER -> FALSE
DictOk(a) ==
  LET v == Values(a) IN
  CASE Ev.st = "val" -> /\ All(a.fs) /\ Errs(a.fs) = <<>> /\ Len(Ev.ids) = Len(v) /\ SetOf(Ev.v) = SetOf(v)
                        /\ \A i \in DOMAIN Ev.v : \E f \in SetOf(a.fs) : LET e == EngOf(f, Ev.v[i]) IN e # 0 /\ (IF Ev.ids[i] = -1 THEN eng[e] = "killed" \/ e \notin DOMAIN idOf \/ ~idOf[e].early ELSE e \in DOMAIN idOf /\ Ev.ids[i] = idOf[e].id)
    [] Ev.st = "dup" -> All(a.fs) /\ \E i \in DOMAIN v : \E j \in DOMAIN v : i < j /\ (EngOf(a.fs[i], v[i]) = EngOf(a.fs[j], v[j]) \/ Cardinality(DOMAIN eng) > Cardinality(UpEngines))
    [] OTHER -> GetOk(a)
ItemOk(a) ==
  LET errs == Errs(a.fs) IN
  CASE Ev.st = "timeout" -> ~All(a.fs)
    [] Ev.st = "comp" -> All(a.fs) /\ errs # <<>> /\ Ev.v = Codes(errs)
    [] Ev.st = "index" -> All(a.fs) /\ errs = <<>> /\ ~Ev.sl /\ Ev.idx = <<>>
    [] Ev.st = "val" -> All(a.fs) /\ errs = <<>> /\ Ev.v = [i \in DOMAIN Ev.idx |-> Code(a.fs[Ev.idx[i]])] /\ (Ev.sl \/ Ev.idx # <<>>)
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
DoEng == EngEff(Ev.e) /\ UNCHANGED <<fut, res, runs, table, idOf, abreq, vars2>> /\ Add(<<>>)
DoKill == KillEff(Ev.e) /\ UNCHANGED <<fut, res, runs, table, idOf, abreq, vars2>> /\ Add(<<>>)
DoClient == /\ table' = [x \in DOMAIN table \cup {Ev.c} |-> IF x = Ev.c THEN SetOf(Ev.tab) ELSE table[x]]
            /\ idOf' = [x \in DOMAIN idOf \cup {p[2] : p \in SetOf(Ev.tab)} |-> IF \E p \in SetOf(Ev.tab) : p[2] = x THEN [id |-> (CHOOSE p \in SetOf(Ev.tab) : p[2] = x)[1], early |-> IF x \in DOMAIN idOf THEN idOf[x].early ELSE TRUE] ELSE idOf[x]]
            /\ UNCHANGED <<fut, res, runs, eng, abreq, vars2>> /\ Add(<<>>)
NewAr(a, r) == ars' = [x \in DOMAIN ars \cup {a} |-> IF x = a THEN r ELSE ars[x]]
DoSub == /\ SubEff([i \in DOMAIN Ev.fs |-> [c |-> Ev.c, es |-> SetOf(Ev.fs[i].e), any |-> Ev.fs[i].any, coal |-> Ev.fs[i].coal,
                                            dep |-> Ev.dep, deps |-> SetOf(Ev.deps), k |-> Ev.kk, retries |-> Ev.retries, mode |-> Ev.mode, how |-> Ev.how, func |-> Ev.func]])
         /\ NewAr(Ev.ar, [fs |-> [i \in DOMAIN Ev.fs |-> Ev.fs[i].f], single |-> Ev.single, coal |-> Ev.coal])
         /\ got' = got \o [i \in DOMAIN Ev.fs |-> [o |-> <<>>, e |-> <<>>, d |-> <<>>, x |-> <<>>, p |-> {}]]
         /\ UNCHANGED <<eng, table, idOf, abreq, cbs, idles, wfe>> /\ Add(<<>>)
\* a submission may be refused only when there is nothing it could be sent to
DoSubx == LET S == SetOf(A.fs) IN
          /\ fut' = [f \in Fs |-> IF f \in S THEN [fut[f] EXCEPT !.c = 0] ELSE fut[f]]
          /\ res' = [f \in Fs |-> IF f \in S THEN [st |-> "err", v |-> <<NoEng>>] ELSE res[f]]
          /\ UNCHANGED <<runs, eng, table, idOf, abreq, vars2>>
          /\ Add(T(S = {} \/ (Ev.ex = "NoEnginesRegistered" /\ table[fut[A.fs[1]].c] = {}), "C01", "a submission failed although there are engines (" \o Ev.ex \o ")"))
DoAr == NewAr(Ev.ar, [fs |-> Ev.fs, single |-> Ev.single, coal |-> Ev.coal]) /\ UNCHANGED <<clVars, got, cbs, idles, wfe>> /\ Add(<<>>)
DoRun ==
  IF Ev.f \notin Fs THEN Same /\ Add(T(FALSE, "C01", "an engine ran something that was not submitted"))
  ELSE /\ RunEff(Ev.f, [e |-> Ev.e, tok |-> Ev.tok, how |-> Ev.how, out |-> Ev.out, x |-> Ev.x])
       /\ UNCHANGED <<fut, res, eng, table, idOf, abreq, vars2>>
       /\ Add(T(RunOk(Ev.f, Ev.e), "C01", "run by an engine it was not meant for, or more often than allowed")
              \o T(fut[Ev.f].k = Ev.kk /\ fut[Ev.f].how = Ev.how, "C01", "an engine ran another function or other arguments than were submitted")
              \o T(InOrder(Ev.f, Ev.e), "E01", "calls sent to one engine were run out of order")
              \o T(~\E p \in abreq : p = <<Ev.f, Ev.e>>, "C09", "an aborted call was run"))
DoCrecv ==
  IF Ev.f \notin Fs THEN Same /\ Add(T(FALSE, "C01", "a reply to something that was not submitted"))
  ELSE /\ ReplyEff(Ev.f, Ev.st, Ev.v) /\ UNCHANGED <<fut, runs, eng, table, idOf, abreq, vars2>>
       /\ Add(T(Ev.c = fut[Ev.f].c, "C01", "a reply came to another client")
              \o T(Justified(Ev.f, Ev.st, Ev.v), "C01", "the reply is not the outcome of a run of the call")
              \o T(Ev.v # <<Aborted>> \/ AbortAsked(Ev.f), "C09", "a call that nobody aborted was reported as aborted"))
\* who waits for engines is told when there are enough of them, or when one of them is lost
Told == T(\A i \in DOMAIN wfe : wfe[i].done \/ ~(wfe[i].lost \/ Cardinality(table[wfe[i].c]) >= wfe[i].n), "C04", "who waits for engines was not told")
DoWfe0 == wfe' = Append(wfe, [c |-> Ev.c, n |-> Ev.n, to |-> Ev.to, lost |-> FALSE, done |-> FALSE]) /\ UNCHANGED <<clVars, ars, got, cbs, idles>> /\ Add(<<>>)
DoWfe == LET w == wfe[Ev.i] n == Cardinality(table[w.c]) IN
  /\ wfe' = [wfe EXCEPT ![Ev.i].done = TRUE] /\ UNCHANGED <<clVars, ars, got, cbs, idles>>
  /\ Add(T(CASE w.done -> FALSE [] Ev.st = "ok" -> n >= w.n [] Ev.st = "died" -> w.lost [] Ev.st = "timeout" -> n < w.n /\ w.to >= 0 /\ Ev.el + 1 >= w.to [] OTHER -> FALSE,
           "C04", "who waits for engines was told something wrong (" \o Ev.st \o ")"))
DoCnote ==
  IF Ev.t = "reg" THEN RegEff(Ev.c, Ev.id, Ev.e) /\ UNCHANGED <<fut, res, runs, eng, abreq, vars2>> /\ Add(Told)
  ELSE UnregEff(Ev.c, Ev.id, Ev.e) /\ UNCHANGED <<fut, runs, eng, idOf, abreq, ars, got, cbs, idles>>
       /\ wfe' = [i \in DOMAIN wfe |-> IF wfe[i].c = Ev.c THEN [wfe[i] EXCEPT !.lost = TRUE] ELSE wfe[i]]
       /\ Add(Told \o T(Ev.e = 0 \/ eng[Ev.e] = "killed", "C04", "an engine that is alive was declared gone"))
DoIop ==
  IF Ev.f \notin Fs THEN Same /\ Add(<<>>)
  ELSE /\ IF Ev.ch = "idle" THEN idles' = idles \cup {Ev.f} /\ UNCHANGED got
          ELSE /\ got' = [got EXCEPT ![Ev.f] = IF Ev.ch = "p" THEN [@ EXCEPT !.p = @ \cup SetOf(Ev.toks)]
                                               ELSE IF Ev.ch = "x" THEN [@ EXCEPT !.x = Ev.toks]
                                               ELSE [@ EXCEPT ![Ev.ch] = @ \o Ev.toks]]
               /\ UNCHANGED idles
       /\ UNCHANGED <<clVars, ars, cbs, wfe>> /\ Add(<<>>)
DoAb == /\ abreq' = abreq \cup (IF Ev.all THEN {<<0, Ev.e>>} ELSE {<<f, Ev.e>> : f \in {g \in SetOf(Ev.fs) : g \in Fs /\ RunsBy(g, Ev.e) = {}}})
        /\ UNCHANGED <<fut, res, runs, eng, table, idOf, vars2>> /\ Add(<<>>)
Obs(tags) == Same /\ Add(tags)
DoReady == Obs(T(Ev.r = All(A.fs), "C02", "ready() is not what it is"))
DoSucc == Obs(T(CASE Ev.r = "yes" -> All(A.fs) /\ Errs(A.fs) = <<>> [] Ev.r = "no" -> All(A.fs) /\ Errs(A.fs) # <<>> [] OTHER -> ~All(A.fs), "C02", "successful() is not what it is"))
DoGet == Obs(T(GetOk(A), IF Ev.st = "hang" THEN "C01" ELSE "C02", IF Ev.st = "hang" THEN "a result never comes" ELSE "get() does not give the outcome of the calls (" \o Ev.st \o ")")
             \o T(GetOk(A) => GetEngOk(A), "C05", "an error names the wrong engine"))
DoWait == Obs(T(WaitOk(A), "C02", "wait() is not what it is (" \o Ev.st \o ")"))
DoIter0 == Obs(<<>>)
DoIter == Obs(T(IterOk(A), "C02", "iteration does not give the results in order (" \o Ev.st \o ")"))
DoLen == Obs(T(Ev.n = Len(A.fs) /\ Ev.p = Cardinality({i \in DOMAIN A.fs : Resolved(A.fs[i])}), "C02", "len or progress is wrong"))
DoDict == Obs(T(DictOk(A), "C02", "get_dict() does not attribute the results to engines (" \o Ev.st \o ")"))
DoItem == Obs(T(ItemOk(A), "C02", "indexing does not give the results (" \o Ev.st \o ")"))
DoSplit == Obs(T(Ev.fs = [i \in DOMAIN A.fs |-> <<A.fs[i]>>], "C02", "split() is not one part for each call"))
DoCb0 == cbs' = Append(cbs, [ar |-> Ev.ar, n |-> 0]) /\ UNCHANGED <<clVars, ars, got, idles, wfe>> /\ Add(<<>>)
DoCb == /\ cbs' = [cbs EXCEPT ![Ev.i].n = @ + 1] /\ UNCHANGED <<clVars, ars, got, idles, wfe>>
        /\ Add(T(All(A.fs) /\ Ev.r /\ Ev.n = 1, "C02", "a callback was called too early or twice"))
Pending(S) == {f \in S : ~Resolved(f)}
MineOf(c) == {f \in Fs : fut[f].c = c}
DoOuts == Obs(T(SetOf(Ev.fs) = Pending(MineOf(Ev.c)) /\ Ev.unk = 0 /\ Ev.par = <<>>, "C03", "outstanding is not the set of calls without a result"))
DoHist == Obs(T(Incr(Ev.fs) /\ SetOf(Ev.fs) = MineOf(Ev.c), "C03", "history is not what was submitted, in order"))
ArFs(as) == UNION {SetOf(ars[as[i]].fs) : i \in DOMAIN as}
DoCwait ==
  LET S == IF Ev.all THEN MineOf(Ev.c) ELSE ArFs(Ev.ars) P == Pending(S) IN
  Obs(T(CASE Ev.st = "yes" -> P = {} [] Ev.st = "no" -> P # {} /\ LateOk(Ev.to, Ev.el)
          [] Ev.st = "hang" -> Ev.to = -1 /\ \E f \in P : MayPend(f) [] OTHER -> FALSE, "C03", "wait() on a client or view is not what it is (" \o Ev.st \o ")"))
DoVouts == Obs(T(SetOf(Ev.fs) = Pending(ArFs(Ev.ars)) /\ Ev.unk = 0 /\ Ev.par = <<>>, "C03", "a view's outstanding is not what it submitted and has no result"))
Ids(c) == {p[1] : p \in table[c]}
SIds(c) == SetToSortSeq(Ids(c), LAMBDA x, y : x < y)
At(c, i) == LET S == {p[2] : p \in {q \in table[c] : q[1] = i}} IN IF S = {} THEN 0 ELSE CHOOSE e \in S : TRUE
DoIds == Obs(T(Ev.ids = SIds(Ev.c) /\ Ev.n = Len(Ev.ids) /\ Ev.es = [i \in DOMAIN Ev.ids |-> At(Ev.c, Ev.ids[i])], "C04", "ids is not the set of registered engines"))
\* Python's rules for slices: 99 stands for None
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceIdx(n, s) ==
  LET st == IF s[3] = 99 THEN 1 ELSE s[3]
      nrm(x, lo, hi) == Clip(IF x < 0 THEN x + n ELSE x, lo, hi)
      a == IF s[1] = 99 THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE IF st > 0 THEN nrm(s[1], 0, n) ELSE nrm(s[1], -1, n - 1)
      b == IF s[2] = 99 THEN (IF st > 0 THEN n ELSE -1) ELSE IF st > 0 THEN nrm(s[2], 0, n) ELSE nrm(s[2], -1, n - 1)
      cnt == IF st > 0 THEN (IF b > a THEN (b - a + st - 1) \div st ELSE 0) ELSE (IF a > b THEN (a - b + (-st) - 1) \div (-st) ELSE 0)
  IN [i \in 1..cnt |-> a + (i - 1) * st]
TgtIds(c, sp) ==
  LET ids == SIds(c) n == Len(ids) IN
  CASE sp.t = "all" -> ids
    [] sp.t = "int" -> LET x == sp.v[1] IN IF x >= 0 THEN (IF x \in Ids(c) THEN <<x>> ELSE <<-1>>) ELSE (IF n + x >= 0 THEN <<ids[n + x + 1]>> ELSE <<-1>>)
    [] sp.t = "slice" -> LET ix == SliceIdx(n, sp.v) IN [i \in DOMAIN ix |-> ids[ix[i] + 1]]
    [] sp.t = "list" -> IF \A i \in DOMAIN sp.v : sp.v[i] \in Ids(c) THEN sp.v ELSE <<-1>>
    [] OTHER -> <<-1>>
DoTgt ==
  LET want == TgtIds(Ev.c, Ev.sp) IN
  Obs(T(IF table[Ev.c] = {} THEN Ev.st # "ok" ELSE IF want = <<-1>> THEN Ev.st # "ok"
        ELSE Ev.st = "ok" /\ Ev.ids = want /\ Ev.es = [i \in DOMAIN want |-> At(Ev.c, want[i])], "C04", "targets are not the engines that were named"))
-----------------------------------------------------------------------------
\* outputs
OutOf(f, ch) == FlatS([i \in DOMAIN runs[f] |-> LET o == SelectSeq(runs[f][i].out, LAMBDA x : x[1] = ch) IN [j \in DOMAIN o |-> o[j][2]]])
IsPre(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
OutP(a) ==
  /\ \A c \in {"so", "se", "d", "x", "p"} : Len(Ev[c]) = Len(a.fs)
  /\ \A i \in DOMAIN a.fs : LET f == a.fs[i] IN
        /\ Ev.so[i] = got[f].o /\ IsPre(Ev.so[i], OutOf(f, "o"))
        /\ Ev.se[i] = got[f].e /\ IsPre(Ev.se[i], OutOf(f, "e"))
        /\ Ev.d[i] = got[f].d /\ IsPre(Ev.d[i], OutOf(f, "d"))
        /\ Ev.x[i] = got[f].x /\ SetOf(Ev.x[i]) \subseteq {runs[f][j].tok : j \in DOMAIN runs[f]}
        /\ SetOf(Ev.p[i]) = got[f].p /\ got[f].p \subseteq SetOf(OutOf(f, "p"))
RanOk(f) == Len(runs[f]) = 1 /\ Resolved(f) /\ Code(f) \in {runs[f][1].tok, -runs[f][1].tok}
OutAll(a) == \A i \in DOMAIN a.fs : LET f == a.fs[i] IN RanOk(f) =>
        /\ Ev.so[i] = OutOf(f, "o") /\ Ev.se[i] = OutOf(f, "e") /\ Ev.d[i] = OutOf(f, "d") /\ SetOf(Ev.p[i]) = SetOf(OutOf(f, "p"))
RanAgain(f) == Len(runs[f]) > 1 \/ \E i \in DOMAIN runs[f] : runs[f][i].how = "unmet"
            \/ (Len(runs[f]) > 0 /\ Resolved(f) /\ ~RanOk(f))
DoOutp ==
  IF A.coal \/ \E f \in SetOf(A.fs) : RanAgain(f) THEN Obs(<<>>)
  ELSE Obs(T(OutP(A), "C05", "outputs are not what the engines produced")
           \o T(OutP(A) /\ Ev.w = "yes" => OutAll(A), "C05", "outputs are incomplete although they were waited for")
           \o T(Ev.w \in {"yes", "no", "hang"}, "C05", "outputs cannot be waited for"))
DoMd == Obs(T(A.coal \/ \A i \in DOMAIN Ev.ms : LET m == Ev.ms[i] f == A.fs[i] IN
              /\ m.order
              /\ Resolved(f) => /\ m.f = f
                                /\ m.st = (IF Err(f) THEN (IF Code(f) = Aborted THEN "aborted" ELSE "error") ELSE "ok")
                                /\ (Code(f) > Died => m.e = <<EngOf(f, Code(f))>>), "C05", "metadata does not describe the run"))
DoAbort0 == Obs(<<>>)
\* once an engine has acknowledged that calls are to be aborted, it does not run them
DoAbort == LET fs == IF Ev.all THEN {f \in Fs : fut[f].c = Ev.c /\ ~Resolved(f)} ELSE UNION {SetOf(ars[a].fs) : a \in SetOf(Ev.ars)} IN
           /\ abreq' = abreq \cup (IF Ev.st = "ok" THEN {p \in fs \X SetOf(Ev.es) : RunsBy(p[1], p[2]) = {}} ELSE {})
           /\ UNCHANGED <<fut, res, runs, eng, table, idOf, vars2>>
           /\ Add(T(Ev.st \in {"ok", "noeng"} \/ (Ev.st = "died" /\ \E e \in SetOf(Ev.es) : eng[e] = "killed"), "C09", "abort failed (" \o Ev.st \o ")"))
DoHang == Obs(T(\E f \in Fs : ~Resolved(f) /\ MayPend(f), "C01", "nothing happens any more, or it never ends"))
DoOdd == Obs(T(FALSE, "C01", "a message that cannot be read"))
\* a message that was not signed with the cluster's key: nothing changes, then or later
DoForge == Obs(<<>>)
DoExit == Obs(T(FALSE, "X01", "the controller or an engine exits"))
DoQuiet ==
  Obs(Told \o T(\A f \in Fs : Resolved(f) \/ MayPend(f), "C01", "a call never gets a result")
      \o T(\A i \in DOMAIN cbs : All(ars[cbs[i].ar].fs) => cbs[i].n = 1, "C02", "a callback was not called"))
Step == CASE Ev.k = "eng" -> DoEng [] Ev.k = "kill" -> DoKill [] Ev.k = "client" -> DoClient [] Ev.k = "sub" -> DoSub [] Ev.k = "subx" -> DoSubx
          [] Ev.k = "ar" -> DoAr [] Ev.k = "run" -> DoRun [] Ev.k = "crecv" -> DoCrecv [] Ev.k = "cnote" -> DoCnote [] Ev.k = "iop" -> DoIop
          [] Ev.k = "ab" -> DoAb [] Ev.k = "ready" -> DoReady [] Ev.k = "succ" -> DoSucc [] Ev.k = "get" -> DoGet [] Ev.k = "wait" -> DoWait
          [] Ev.k = "iter0" -> DoIter0 [] Ev.k = "iter" -> DoIter [] Ev.k = "len" -> DoLen [] Ev.k = "dict" -> DoDict [] Ev.k = "item" -> DoItem
          [] Ev.k = "split" -> DoSplit [] Ev.k = "cb0" -> DoCb0 [] Ev.k = "cb" -> DoCb [] Ev.k = "outs" -> DoOuts [] Ev.k = "hist" -> DoHist
          [] Ev.k = "cwait" -> DoCwait [] Ev.k = "vouts" -> DoVouts [] Ev.k = "ids" -> DoIds [] Ev.k = "tgt" -> DoTgt [] Ev.k = "outp" -> DoOutp
          [] Ev.k = "md" -> DoMd [] Ev.k = "abort0" -> DoAbort0 [] Ev.k = "abort" -> DoAbort [] Ev.k = "hang" -> DoHang [] Ev.k = "odd" -> DoOdd [] Ev.k = "wfe0" -> DoWfe0 [] Ev.k = "wfe" -> DoWfe
          [] Ev.k = "quiet" -> DoQuiet [] Ev.k = "forge" -> DoForge [] Ev.k = "exit" -> DoExit
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o Join(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE Join(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<clVars, vars2, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
