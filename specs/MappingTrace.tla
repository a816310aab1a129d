---------------------------- MODULE MappingTrace ----------------------------
(* maps: m |-> what was asked for (kind "map": the function is called with one item of each sequence, "call": with
   one part of each sequence); rn: m |-> position (or part) |-> runs; lz: lazy maps; dead: engines that died;
   lost: items of lazy maps that were reported lost with an engine.                                                  *)
EXTENDS Mapping, Json, TLC
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES maps, rn, lz, dead, lost, ti, l, viol
mvars == <<maps, rn, lz, dead, lost>>
tvars == <<mvars, ti, l, viol>>
Died == -1000001
Ev == Traces[ti].ev[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ maps = <<>> /\ rn = <<>> /\ lz = <<>> /\ dead = {} /\ lost = {}
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Obs(tags) == UNCHANGED mvars /\ Add(tags)
-----------------------------------------------------------------------------
M == maps[Ev.m]
\* the number of parts, what is in them; positions beyond the shortest sequence are not mapped
NParts(m) == IF m.mode # "lb" THEN Len(m.es) ELSE IF m.chunk = 0 THEN m.n ELSE (m.n + m.chunk - 1) \div m.chunk
Raw(m, c) == PartOf(m.dist, m.n, NParts(m), c)
Pos(m, c) == SelectSeq(Raw(m, c), LAMBDA p : p <= m.k)
\* a part all of whose sequences are empty is not sent anywhere; a broadcast is
Used(m) == {c \in 1..NParts(m) : Raw(m, c) # <<>> \/ m.mode = "bcast"}
\* what runs made of part c
RunsOf(i, p) == IF p \in DOMAIN rn[i] THEN rn[i][p] ELSE <<>>
OkRun(i, p) == \E r \in SetOf(RunsOf(i, p)) : r.how = "ok"
Tok(i, p) == (CHOOSE r \in SetOf(RunsOf(i, p)) : r.how = "ok").tok
Keys(i, c) == IF maps[i].kind = "map" THEN Pos(maps[i], c) ELSE <<c>>
AllRan(i, c) == \A j \in DOMAIN Keys(i, c) : OkRun(i, Keys(i, c)[j])
ValsOf(i, c) == LET ks == Keys(i, c) m == maps[i] IN
  IF m.kind = "map" THEN [j \in DOMAIN ks |-> Tok(i, ks[j])]
  ELSE IF m.ret = "list" THEN [j \in 1..Len(Raw(m, c)) |-> Tok(i, c) * 100 + j] ELSE <<Tok(i, c)>>
ErrsOf(i, c) == {-r.tok : r \in {x \in UNION {SetOf(RunsOf(i, Keys(i, c)[j])) : j \in DOMAIN Keys(i, c)} : x.how = "fail"}}
                \cup (IF maps[i].mode = "lb" THEN (IF dead = {} THEN {} ELSE {Died}) ELSE IF maps[i].es[c] \in dead THEN {Died} ELSE {})
\* v, from position j on, is made of the parts from c on; errors stand for the parts that failed
RECURSIVE Match(_, _, _, _, _)
Match(i, c, v, j, errs) ==
  IF c > NParts(maps[i]) THEN j = Len(v) + 1
  ELSE IF c \notin Used(maps[i]) THEN Match(i, c + 1, v, j, errs)
  ELSE \/ /\ AllRan(i, c) /\ LET w == ValsOf(i, c) IN j + Len(w) - 1 <= Len(v) /\ SubSeq(v, j, j + Len(w) - 1) = w /\ Match(i, c + 1, v, j + Len(w), errs)
       \/ errs /\ j <= Len(v) /\ v[j] \in ErrsOf(i, c) /\ Match(i, c + 1, v, j + 1, errs)
\* the errors of the parts that failed, and nothing else
RECURSIVE MatchErr(_, _, _, _)
MatchErr(i, c, v, j) ==
  IF c > NParts(maps[i]) THEN j = Len(v) + 1
  ELSE IF c \notin Used(maps[i]) THEN MatchErr(i, c + 1, v, j)
  ELSE \/ AllRan(i, c) /\ MatchErr(i, c + 1, v, j)
       \/ j <= Len(v) /\ v[j] \in ErrsOf(i, c) /\ MatchErr(i, c + 1, v, j + 1)
Whole(i, v) == IF \A c \in Used(maps[i]) : AllRan(i, c)
               THEN v = Join(maps[i].dist, [j \in 1..Cardinality(Used(maps[i])) |-> ValsOf(i, j)])
               ELSE FALSE
Plain(m) == m.dist # "r"
GetOk(i) ==
  LET m == maps[i] rx == m.rx \/ Ev.rx = 1 IN
  CASE Ev.st = "val" -> Whole(i, Ev.v) \/ (rx /\ Match(i, 1, Ev.v, 1, TRUE))
    [] Ev.st = "comp" -> ~rx /\ Ev.v # <<>> /\ MatchErr(i, 1, Ev.v, 1)
    [] Ev.st = "timeout" -> Ev.to >= 0
    [] OTHER -> FALSE
\* iteration: whole parts, in order or (if asked for) in any order; a part that failed ends it
RECURSIVE MatchAny(_, _, _, _)
MatchAny(i, v, j, done) ==
  IF j > Len(v) THEN {c \in Used(maps[i]) \ done : ~AllRan(i, c) \/ ValsOf(i, c) # <<>>}
  ELSE LET cs == {c \in Used(maps[i]) \ done : AllRan(i, c) /\ ValsOf(i, c) # <<>> /\ LET w == ValsOf(i, c) IN j + Len(w) - 1 <= Len(v) /\ SubSeq(v, j, j + Len(w) - 1) = w}
           es == {c \in Used(maps[i]) \ done : maps[i].rx /\ v[j] \in ErrsOf(i, c)} IN
       IF cs # {} THEN LET c == CHOOSE x \in cs : TRUE IN MatchAny(i, v, j + Len(ValsOf(i, c)), done \cup {c})
       ELSE IF es # {} THEN MatchAny(i, v, j + 1, done \cup {CHOOSE x \in es : TRUE})
       ELSE {0}
RECURSIVE Upto(_, _, _, _)
\* the first part that is missing when v is what the parts before it gave; 0 if there is no such part
Upto(i, c, v, j) ==
  IF c > NParts(maps[i]) THEN (IF j = Len(v) + 1 THEN c ELSE 0)
  ELSE IF c \notin Used(maps[i]) THEN Upto(i, c + 1, v, j)
  ELSE IF j = Len(v) + 1 /\ (~AllRan(i, c) \/ ValsOf(i, c) # <<>>) THEN c
  ELSE IF AllRan(i, c) /\ LET w == ValsOf(i, c) IN j + Len(w) - 1 <= Len(v) /\ SubSeq(v, j, j + Len(w) - 1) = w THEN Upto(i, c + 1, v, j + Len(ValsOf(i, c)))
  ELSE 0
IterOk(i) ==
  LET m == maps[i] rest == MatchAny(i, Ev.ys, 1, {}) c == Upto(i, 1, Ev.ys, 1) IN
  CASE Ev.st = "stop" -> Whole(i, Ev.ys) \/ (m.rx /\ Match(i, 1, Ev.ys, 1, TRUE)) \/ (~m.ordered /\ rest = {})
    [] Ev.st \in {"comp", "exc"} ->
         ~m.rx /\ \/ Ev.ys = <<>> /\ Ev.v # <<>> /\ MatchErr(i, 1, Ev.v, 1)
                  \/ m.ordered /\ c \in Used(m) /\ \E e \in ErrsOf(i, c) : Ev.v = <<e>>
                  \/ ~m.ordered /\ 0 \notin rest /\ \E d \in rest : \E e \in ErrsOf(i, d) : Ev.v = <<e>>
    [] OTHER -> FALSE
-----------------------------------------------------------------------------
DoKill == dead' = dead \cup {Ev.e} /\ UNCHANGED <<maps, rn, lz, lost>> /\ Add(<<>>)
DoMap == /\ maps' = Put(maps, Ev.m, [kind |-> Ev.kind, mode |-> Ev.mode, dist |-> Ev.dist, chunk |-> Ev.chunk, n |-> Ev.n, k |-> Ev.kk, es |-> Ev.es,
                                     ordered |-> Ev.ordered, rx |-> Ev.rx, items |-> Ev.items, ret |-> Ev.ret])
         /\ rn' = Put(rn, Ev.m, <<>>) /\ UNCHANGED <<lz, dead, lost>> /\ Add(<<>>)
DoLazy == /\ maps' = Put(maps, Ev.m, [kind |-> "lazy", mode |-> "lb", items |-> Ev.items, rx |-> Ev.rx, es |-> Ev.es])
          /\ rn' = Put(rn, Ev.m, <<>>) /\ lz' = Put(lz, Ev.m, NewLazy(Ev.n, Ev.lim, Ev.ordered, Ev.rx)) /\ UNCHANGED <<dead, lost>> /\ Add(<<>>)
\* which position the arguments of a run are, 0 if they are not what they should be
ArgPos(m) == LET ps == {p \in 1..Len(m.items[1]) : \A s \in DOMAIN m.items : p <= Len(m.items[s]) /\ m.items[s][p] = Ev.args[s][1]} IN
             IF Len(Ev.args) # Len(m.items) \/ (\E s \in DOMAIN Ev.args : Len(Ev.args[s]) # 1) \/ ps = {} THEN 0 ELSE CHOOSE p \in ps : TRUE
ArgPart(m) == LET cs == {c \in Used(m) : \A s \in DOMAIN m.items : Ev.args[s] = [j \in DOMAIN Raw(m, c) |-> m.items[s][Raw(m, c)[j]]]} IN
              IF Len(Ev.args) # Len(m.items) \/ cs = {} THEN 0 ELSE CHOOSE c \in cs : TRUE
PartAt(m, p) == CHOOSE c \in 1..NParts(m) : \E j \in DOMAIN Raw(m, c) : Raw(m, c)[j] = p
DoRun ==
  IF Ev.m \notin DOMAIN maps THEN Obs(T(FALSE, "C07", "something was run that nobody mapped"))
  ELSE LET m == M p == IF m.kind = "call" THEN ArgPart(m) ELSE ArgPos(m) tag == IF m.kind = "lazy" THEN "C08" ELSE "C07" IN
       /\ rn' = [rn EXCEPT ![Ev.m] = Put(@, p, Append(RunsOf(Ev.m, p), [e |-> Ev.e, tok |-> Ev.tok, how |-> Ev.how]))]
       /\ UNCHANGED <<maps, lz, dead, lost>>
       /\ Add(T(p # 0, tag, "the function was called with arguments that do not belong together")
              \o T(p = 0 \/ RunsOf(Ev.m, p) = <<>>, tag, "the function was called more than once for one item")
              \o T(p = 0 \/ m.kind = "lazy" \/ m.mode = "lb" \/ Ev.e = m.es[IF m.kind = "call" THEN p ELSE PartAt(m, p)], tag, "an item went to the wrong engine")
              \o T(m.mode # "lb" \/ m.es = <<>> \/ Ev.e \in SetOf(m.es), tag, "an item went to an engine the view does not use")
              \o T(p = 0 \/ m.kind # "lazy" \/ p <= lz[Ev.m].taken, tag, "an item was run before it was taken"))
DoRes == Obs(T(GetOk(Ev.m), "C07", "the result of a map is not what its function returned (" \o Ev.st \o ")"))
DoIt == Obs(T(IterOk(Ev.m), "C07", "iteration over a map is not what its function returned (" \o Ev.st \o ")"))
DoLen == Obs(T(M.kind # "map" \/ Ev.n = M.k, "C07", "a map has the wrong length"))
DoMapx == Obs(T(Ev.ok, "C07", "a map was refused (" \o Ev.ex \o ")"))
\* the lazy map
Z == lz[Ev.m]
LzSet(z2) == lz' = [lz EXCEPT ![Ev.m] = z2] /\ UNCHANGED <<maps, rn, dead>>
LzUpd(z2) == LzSet(z2) /\ UNCHANGED lost
DoTake == LzUpd(TakeEff(Z)) /\ Add(T(CanTake(Z) /\ Ev.p = Z.taken + 1, "C08", IF Z.stopped THEN "an input was taken after the map was stopped" ELSE "too many inputs were taken in advance"))
DoDry == LzUpd(ExhaustEff(Z)) /\ Add(T(Z.taken = Z.n, "C08", "the input ended early"))
DoFin == LzSet(FinEff(Z, Ev.p)) /\ lost' = (IF Ev.died THEN lost \cup {<<Ev.m, Ev.p>>} ELSE lost) /\ Add(T(~Ev.died \/ dead # {}, "C08", "a call was reported lost although no engine died"))
\* the input itself raises an error: that is the last result
DoBroke == LzUpd([FinEff(TakeEff(Z), Z.taken + 1) EXCEPT !.exhausted = TRUE]) /\ Add(<<>>)
OutOf(i, p) == {r.tok : r \in {x \in SetOf(RunsOf(i, p)) : x.how = "ok"}}
LErrs(i, p) == {-r.tok : r \in {x \in SetOf(RunsOf(i, p)) : x.how = "fail"}} \cup (IF <<i, p>> \in lost THEN {Died} ELSE {}) \cup {-2000000 - p}
DoYld == LET ps == {p \in 1..Z.taken : CanYield(Z, p) /\ ((<<Ev.m, p>> \notin lost /\ Ev.v[1] \in OutOf(Ev.m, p)) \/ (Z.rx /\ Ev.v[1] \in LErrs(Ev.m, p)))} IN
  IF ps = {} THEN Obs(T(FALSE, "C08", "a result came out that should not have, or not yet"))
  ELSE LzUpd(YieldEff(Z, CHOOSE p \in ps : TRUE)) /\ Add(<<>>)
DoEnd ==
  LzUpd(EndEff(Z)) /\
  Add(CASE Ev.st = "stop" -> T(Z.ended \/ CanEnd(Z), "C08", "the iteration ended although there are more results")
        [] Ev.st = "exc" -> T(\E p \in 1..Z.taken : CanYield(Z, p) /\ ~(Z.rx /\ Ev.v[1] # -2000000 - p) /\ Ev.v[1] \in LErrs(Ev.m, p), "C08", "an error was raised that is not the next result")
        [] Ev.st = "dropped" -> <<>>
        [] OTHER -> T(FALSE, "C08", "the next result never comes, or it fails (" \o Ev.st \o ")"))
DoCancel == LzUpd(StopEff(Z)) /\ Add(<<>>)
DoShut == Obs(T(Ev.st = "ok", "C08", "shutting the executor down never ends (" \o Ev.st \o ")")
              \o T(Ev.st # "ok" \/ \A i \in SetOf(Ev.ms) : (lz[i].exhausted \/ lz[i].stopped) /\ 1..lz[i].taken \subseteq lz[i].fin, "C08", "the executor was shut down before its work was done"))
DoQuiet == Obs(T(\A i \in DOMAIN lz : lz[i].exhausted \/ lz[i].stopped, "C08", "a map never takes the rest of its inputs"))
Step == CASE Ev.k = "kill" -> DoKill [] Ev.k = "map" -> DoMap [] Ev.k = "lazy" -> DoLazy [] Ev.k = "run" -> DoRun [] Ev.k = "res" -> DoRes [] Ev.k = "it" -> DoIt
          [] Ev.k = "len" -> DoLen [] Ev.k = "mapx" -> DoMapx [] Ev.k = "take" -> DoTake [] Ev.k = "dry" -> DoDry [] Ev.k = "fin" -> DoFin [] Ev.k = "broke" -> DoBroke
          [] Ev.k = "yld" -> DoYld [] Ev.k = "end" -> DoEnd [] Ev.k = "cancel" -> DoCancel [] Ev.k = "shut" -> DoShut [] Ev.k = "quiet" -> DoQuiet
          [] Ev.k = "shut0" -> Obs(<<>>)
RECURSIVE JoinT(_)
JoinT(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o JoinT(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE JoinT(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<mvars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
