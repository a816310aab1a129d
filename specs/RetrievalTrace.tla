--------------------------- MODULE RetrievalTrace ---------------------------
EXTENDS Retrieval, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES h,      \* the hub: [rec, fin, drp, hrd (submitted, as far as it knows)]
          c0,     \* the hub, when the call was made
          call,   \* the call
          kk,     \* request -> what it is to do
          runs,   \* request -> its runs
          hs,     \* handle -> [rs, v (what it told), done]
          ks,     \* engines that died
          subs,   \* requests submitted by clients

          ti, l, viol
svars == <<h, c0, call, kk, runs, hs, ks, subs>>
tvars == <<svars, ti, l, viol>>
Ev == Traces[ti].ev[l]
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
H0 == [rec |-> {}, fin |-> {}, drp |-> {}, hrd |-> {}, back |-> {}]
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ h = H0 /\ c0 = H0 /\ call = [op |-> "none"] /\ kk = <<>> /\ runs = <<>> /\ hs = <<>> /\ ks = {} /\ subs = {}
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, why) == IF cond THEN <<>> ELSE <<<<"C06", why, l>>>>
DIED == -1000001
Runs(r) == Get(runs, r, <<>>)
Told(x) == IF x.ok THEN x.tok ELSE -x.tok
ABORTED == -1000002
\* a failed execute aborts what waits at its engine
Stopped == \E q \in DOMAIN runs : \E i \in DOMAIN runs[q] : runs[q][i].x /\ ~runs[q][i].ok
\* the outcomes that a request can have had
Outs(r) == {Told(Runs(r)[i]) : i \in DOMAIN Runs(r)} \cup (IF ks # {} THEN {DIED} ELSE {})
           \cup (IF Runs(r) = <<>> /\ Stopped THEN {ABORTED} ELSE {})
DoKill == ks' = ks \cup {Ev.e} /\ UNCHANGED <<h, c0, call, kk, runs, hs, subs>> /\ Add(<<>>)
DoSub == LET R == Rng(Ev.rs) IN
  /\ subs' = subs \cup R /\ kk' = [q \in DOMAIN kk \cup R |-> IF q \in R THEN Ev.kk ELSE kk[q]]
  /\ UNCHANGED <<h, c0, call, runs, hs, ks>> /\ Add(<<>>)
DoRun == /\ runs' = Put(runs, Ev.r, Append(Runs(Ev.r), [tok |-> Ev.tok, ok |-> Ev.ok, e |-> Ev.e, out |-> Ev.out, x |-> Ev.x, kk |-> Ev.kk]))
         /\ UNCHANGED <<h, c0, call, kk, hs, ks, subs>>
         /\ Add(T(Ev.r \in DOMAIN kk => kk[Ev.r] = Ev.kk, "an engine ran something else")
                \o T(Runs(Ev.r) = <<>> \/ ks # {}, "a request ran twice"))
DoHub == /\ h' = [rec |-> h.rec \cup Rng(Ev.rec), fin |-> h.fin \cup Rng(Ev.fin), drp |-> h.drp \cup Rng(Ev.drp), hrd |-> h.hrd \cup Rng(Ev.hrd), back |-> h.back \cup (h.drp \cap Rng(Ev.rec))]
         /\ UNCHANGED <<c0, call, kk, runs, hs, ks, subs>>
         /\ Add(T(Rng(Ev.drp) = {} \/ call.op = "purge" , "records vanished"))
DoCall == call' = Ev /\ c0' = h /\ UNCHANGED <<h, kk, runs, hs, ks, subs>> /\ Add(<<>>)
Loc == Rng(call.loc)
Mine == Rng(call.out)
rs == call.rs
\* answers that any retrieval can have
Refused == T(MayRefuse(h, c0, rs, Loc), "a known request was refused as unknown")
Odd == T(FALSE, "something else came of it (" \o Ev.st \o ")")
NoNew == UNCHANGED <<h, c0, call, kk, runs, ks, subs>>
-----------------------------------------------------------------------------
RetStatus ==
  /\ NoNew /\ UNCHANGED hs
  /\ Add(CASE Ev.st = "ok" -> T(MayAnswer(h, c0, rs, Loc), "an unknown request was not refused")
                \o T(StatusOk(h, c0, rs, Loc, Ev.comp, Ev.pend), "the status of requests is wrong")
                \o T(Ev.only \/ (Len(Ev.v) = Len(Ev.comp) /\ \A i \in DOMAIN Ev.comp : Ev.v[i] \in Outs(Ev.comp[i]) /\ (Ev.v[i] < 0 => Ev.comp[i] \in Loc)), "the results of requests are wrong")
           [] Ev.st = "key" -> Refused
           [] Ev.st \in {"exc", "comp"} -> T(~Ev.only /\ \A i \in DOMAIN Ev.v : (Ev.v[i] < 0 /\ \E r \in Rng(rs) \ Loc : Ev.v[i] \in Outs(r)), "an error of another request")
           [] OTHER -> Odd)
RetGetResult ==
  /\ NoNew
  /\ hs' = IF Ev.st = "ok" THEN Put(hs, Ev.h, [rs |-> rs, v |-> <<>>, done |-> FALSE]) ELSE hs
  /\ Add(IF Ev.st = "ok" THEN T(Ev.rs = rs, "not the requests that were asked for") ELSE Odd)
\* a handle: as far as it has told something, it goes on telling that
HDone == call.h \in DOMAIN hs /\ hs[call.h].done
HSet(v) == hs' = Put(hs, call.h, [rs |-> rs, v |-> v, done |-> TRUE])
HV == IF call.h \in DOMAIN hs THEN hs[call.h].v ELSE <<>>
Fails == SelectSeq([i \in DOMAIN rs |-> IF Outs(rs[i]) # {} /\ \A o \in Outs(rs[i]) : o < 0 THEN 1 ELSE 0], LAMBDA x : x = 1)
CouldFail == SelectSeq([i \in DOMAIN rs |-> IF \E o \in Outs(rs[i]) : o < 0 THEN 1 ELSE 0], LAMBDA x : x = 1)
AllV == /\ Len(Ev.v) = Len(rs) /\ \A i \in DOMAIN rs : Ev.v[i] \in Outs(rs[i]) /\ (Ev.rx \/ Ev.v[i] > 0)
NotYet == T(~HDone /\ MayWait(h, c0, rs, Loc, Mine), "a finished result is not there")
RetGet ==
  /\ NoNew
  /\ IF Ev.st = "val" THEN HSet(Ev.v) ELSE IF Ev.st \in {"exc", "comp"} THEN HSet(HV) ELSE UNCHANGED hs
  /\ Add(CASE Ev.st = "val" -> T(AllV, "the results of requests are wrong") \o T(HV = <<>> \/ HV = Ev.v, "a result changed")
           [] Ev.st = "exc" -> T(\E i \in DOMAIN rs : Ev.v[1] < 0 /\ Ev.v[1] \in Outs(rs[i]), "an error of another request") \o T(~Ev.rx, "an error was raised")
           [] Ev.st = "comp" -> T(/\ Len(Ev.v) >= Len(Fails) /\ Len(Ev.v) <= Len(CouldFail)
                                  /\ \A i \in DOMAIN Ev.v : \E j \in DOMAIN rs : Ev.v[i] < 0 /\ Ev.v[i] \in Outs(rs[j]), "the errors of requests are wrong") \o T(~Ev.rx, "an error was raised")
           [] Ev.st = "key" -> Refused \o T(~HDone, "a result was there, and is not there any more")
           [] Ev.st = "timeout" -> NotYet \o T(~Ev.inf, "timeout without a timeout")
           [] Ev.st = "hang" -> T(\E r \in Rng(rs) : r \notin h.fin, "waiting for a result never ends")
           [] OTHER -> Odd)
RetReady ==
  /\ NoNew
  /\ IF Ev.st = "yes" THEN HSet(HV) ELSE UNCHANGED hs
  /\ Add(CASE Ev.st = "yes" -> T(\A r \in Rng(rs) : Outs(r) # {}, "a result is there too early")
           [] Ev.st = "no" -> NotYet
           [] Ev.st = "key" -> Refused \o T(~HDone, "a result was there, and is not there any more")
           [] OTHER -> Odd)
RECURSIVE Prefix(_, _)
Prefix(a, b) == a = <<>> \/ (b # <<>> /\ Head(a) = Head(b) /\ Prefix(Tail(a), Tail(b)))
MdOk(r, m) == /\ m.r = r
  /\ \/ ks # {}
     \/ (Runs(r) = <<>> /\ Stopped /\ m.st = "aborted")
     \/ (Runs(r) # <<>> /\ LET x == Runs(r)[1] IN m.e = x.e /\ m.st = (IF x.ok THEN "ok" ELSE "error") /\ Prefix(m.so, x.out))
RetMd ==
  /\ NoNew /\ UNCHANGED hs
  /\ Add(CASE Ev.st = "ok" -> T(Len(Ev.ms) = Len(rs) /\ \A i \in DOMAIN rs : MdOk(rs[i], Ev.ms[i]), "the metadata of a result is wrong") [] Ev.st = "skip" -> <<>> [] OTHER -> Odd)
RetResubmit ==
  /\ IF Ev.st = "ok"
     THEN /\ hs' = Put(hs, Ev.h, [rs |-> Ev.news, v |-> <<>>, done |-> FALSE])
          /\ kk' = [q \in DOMAIN kk \cup Rng(Ev.news) |-> IF \E i \in DOMAIN Ev.news : Ev.news[i] = q /\ i \in DOMAIN rs /\ rs[i] \in DOMAIN kk THEN kk[rs[CHOOSE i \in DOMAIN Ev.news : Ev.news[i] = q]] ELSE Get(kk, q, 0)]
          /\ UNCHANGED <<h, c0, call, runs, ks, subs>>
     ELSE UNCHANGED <<hs, kk>> /\ UNCHANGED <<h, c0, call, runs, ks, subs>>
  /\ Add(CASE Ev.st = "ok" -> T(MayAnswer(h, c0, rs, {}), "an unknown request was not refused")
                \o T(Len(Ev.news) = Len(rs) /\ (\A i, j \in DOMAIN rs : (rs[i] = rs[j]) = (Ev.news[i] = Ev.news[j])) /\ Rng(Ev.news) \cap (subs \cup c0.rec) = {}, "a resubmission does not make new requests")
                \o T(\A i \in DOMAIN Ev.news : i \in DOMAIN rs => \A j \in DOMAIN Runs(Ev.news[i]) : Runs(Ev.news[i])[j].kk = Get(kk, rs[i], 0), "a resubmission ran something else")
           [] Ev.st = "key" -> T(MayRefuse(h, c0, rs, {}), "a known request was refused as unknown")
           [] OTHER -> Odd)
\* requests that a purge of engines removes
AtEng == {r \in DOMAIN runs : \E i \in DOMAIN runs[r] : runs[r][i].e \in Rng(call.eng)}
Have0 == Rng(call.have)
RetPurge ==
  /\ NoNew /\ UNCHANGED hs
  /\ LET D == h.drp \ c0.drp
         H1 == Rng(Ev.have)
         hub == call.what # "local"
         loc == call.what # "hub"
         A == Rng(rs)
         MyAt == {r \in Have0 : \E i \in DOMAIN call.at : call.at[i][1] = r /\ call.at[i][2] \in Rng(call.eng)}
         busy == IF call.all THEN Mine # {} ELSE (A \cup MyAt) \cap Mine # {} IN
     Add(CASE Ev.st = "ok" ->
             T(hub => A \cap (c0.rec \ h.drp) = {} , "a purged request is still there")
             \o T(hub \/ D = {}, "requests were purged from the hub")
             \o T(hub /\ call.all => c0.fin \subseteq h.drp, "finished requests are still there")
             \o T(hub => D \subseteq (IF call.all THEN h.fin ELSE A \cup (h.fin \cap (IF ks = {} THEN AtEng \cup {r \in h.fin : Stopped /\ Runs(r) = <<>>} ELSE h.fin))), "other requests were purged from the hub")
             \o T(hub /\ ks = {} => (c0.fin \cap AtEng) \subseteq h.drp, "requests of an engine are still there")
             \o T(hub /\ ~call.all => \A r \in A : r \in c0.hrd => r \in h.fin, "an unfinished request was purged")
             \o T(loc => ~busy, "results were purged that are still outstanding")
             \o T(loc => (IF hub THEN Rng(Ev.loc) ELSE H1) \cap (IF call.all THEN Have0 ELSE A \cup MyAt) = {}, "a purged result is still there")
             \o T((Loc \ Rng(Ev.loc)) \subseteq (Rng(call.own) \cup IF ~loc THEN {} ELSE IF call.all THEN Have0 ELSE A \cup MyAt), "other results were purged")
        [] Ev.st = "busy" -> T(loc /\ busy, "purge refused") \o T(D = {} /\ Have0 \subseteq H1, "a refused purge removed something")
        [] Ev.st = "idx" -> T(hub /\ (Rng(call.eng) \cap ks # {} \/ \E r \in A : r \in h.rec /\ r \notin c0.fin), "purge refused") \o T(D = {} \/ Rng(call.eng) # {}, "a refused purge removed something")
        [] OTHER -> Odd)
RetHistory ==
  /\ NoNew /\ UNCHANGED hs
  /\ Add(IF Ev.st # "ok" THEN Odd
         ELSE T(NoDup(Ev.rs) /\ (c0.fin \ h.drp) \subseteq Rng(Ev.rs) /\ Rng(Ev.rs) \subseteq (h.rec \ (c0.drp \ h.back)), "the history of the hub is wrong")
              \o T(\A i, j \in DOMAIN Ev.rs : i < j /\ Ev.rs[i] \in subs \cap c0.fin /\ Ev.rs[j] \in subs \cap c0.fin => Ev.rs[i] < Ev.rs[j], "the history is not in order"))
QMust == {r \in c0.rec \ h.drp : CASE call.q = "ids" -> r \in Rng(rs) [] call.q = "done" -> r \in c0.fin [] OTHER -> r \notin h.fin}
QMay == {r \in h.rec \ (c0.drp \ h.back) : CASE call.q = "ids" -> r \in Rng(rs) [] call.q = "done" -> r \in h.fin [] OTHER -> r \notin c0.fin}
RecOk(x) == x.fine /\ (x.v # 0 => x.v \in Outs(x.r)) /\ (x.kk # 0 => x.kk = Get(kk, x.r, x.kk))
            /\ (x.done = 1 => x.r \in h.fin) /\ (x.done = 0 => x.r \notin c0.fin)
RetQuery ==
  /\ NoNew /\ UNCHANGED hs
  /\ Add(IF Ev.st # "ok" THEN Odd
         ELSE LET S == {Ev.recs[i].r : i \in DOMAIN Ev.recs} IN
              T(Cardinality(S) = Len(Ev.recs) /\ QMust \subseteq S /\ S \subseteq QMay, "a query finds the wrong requests")
              \o T(\A i \in DOMAIN Ev.recs : RecOk(Ev.recs[i]), "a query returns wrong records"))
RetNone == NoNew /\ UNCHANGED hs /\ Add(Odd)
\* everything is over
DoEnd ==
  /\ UNCHANGED svars
  /\ Add(T(subs \subseteq h.rec \/ ks # {}, "the hub never heard of a request") \o T(h.rec \ h.fin = {} \/ ks # {}, "a request never finished") \o T(\A r \in h.rec : r \in DOMAIN runs \/ ks # {} \/ Stopped, "a request never ran"))
\* a message that was not signed with the cluster's key changes nothing
DoForge == UNCHANGED svars /\ Add(<<>>)
DoExit == UNCHANGED svars /\ Add(T(FALSE, "the controller or an engine exits"))
Step == CASE Ev.k = "forge" -> DoForge [] Ev.k = "exit" -> DoExit [] Ev.k = "kill" -> DoKill [] Ev.k = "sub" -> DoSub [] Ev.k = "run" -> DoRun [] Ev.k = "hub" -> DoHub [] Ev.k = "call" -> DoCall [] Ev.k = "end" -> DoEnd
  [] Ev.k = "ret" -> (CASE Ev.op = "status" -> RetStatus [] Ev.op = "get_result" -> RetGetResult [] Ev.op = "get" -> RetGet [] Ev.op = "ready" -> RetReady [] Ev.op = "md" -> RetMd
                        [] Ev.op = "resubmit" -> RetResubmit [] Ev.op = "purge" -> RetPurge [] Ev.op = "history" -> RetHistory [] Ev.op = "query" -> RetQuery [] OTHER -> RetNone)
RECURSIVE JoinT(_)
JoinT(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o JoinT(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE JoinT(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<svars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
