---------------------------- MODULE ClusterTrace ----------------------------
EXTENDS Cluster, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES kind,     \* component -> "ctl" or "eng"
          idx,      \* component -> numbers of its engines
          size,     \* component -> how many processes there are to be
          parent,   \* component -> the object that started it
          codes,    \* process -> exit code
          stale,    \* controllers that ended without removing their connection files
          call,     \* calls, also those that have returned
          busy,     \* calls that have not returned
          mine,     \* call -> the components that it started
          got,      \* <<call, process, signal>>
          termt,    \* <<call, process>> -> when it was told to terminate
          watch,    \* <<object, component>>: somebody waits to be told
          loose,    \* components that a failed stop may have dropped
          file, dead, nofork, nn, was, atk,

          ti, l, viol
svars == <<gvars, kind, idx, size, parent, codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nofork, nn, was, atk>>
tvars == <<svars, ti, l, viol>>
Ev == Traces[ti].ev[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
NoFile == [there |-> FALSE, ok |-> TRUE, ctl |-> 0, sets |-> <<>>]
TraceInit == /\ ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ GInit /\ kind = <<>> /\ idx = <<>> /\ size = <<>> /\ parent = <<>> /\ codes = <<>> /\ stale = {}
             /\ call = <<>> /\ busy = {} /\ mine = <<>> /\ got = {} /\ termt = <<>> /\ watch = {} /\ loose = {} /\ file = NoFile /\ dead = {} /\ nofork = {} /\ nn = <<>> /\ was = FALSE /\ atk = {}
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(p, cond, why) == IF cond THEN <<>> ELSE <<<<p, why, l>>>>
L1(cond, why) == T("L01", cond, why)
L2(cond, why) == T("L02", cond, why)
CompOf(p) == CHOOSE c \in Comps : p \in memb[c]
Stops == {"stop_controller", "stop_engines", "stop_cluster", "restart_engines"}
Starts == {"start_controller", "start_engines", "start_cluster", "restart_engines"}
\* what a call is about
About(k, c) == CASE k.op = "stop_controller" -> kind[c] = "ctl"
                 [] k.op = "stop_cluster" -> TRUE
                 [] k.op \in {"stop_engines", "restart_engines", "signal_engines"} -> kind[c] = "eng" /\ (k.name = "" \/ name[c] = k.name)
                 [] OTHER -> FALSE
Starting(c) == \E i \in busy : i \in DOMAIN mine /\ c \in mine[i]
Stopping(c) == \E i \in DOMAIN call : call[i].on /\ call[i].op \in Stops /\ About(call[i], c) /\ c \notin Get(mine, i, {})
Ctls(o) == {c \in held[o] : kind[c] = "ctl"}
Mine(i) == Get(mine, i, {})
\* another call was under way at the same time
Overlap(i, ops) == \E j \in DOMAIN call \ {i} : call[j].op \in ops /\ (j \in busy \/ call[j].end >= call[i].start)
U(vs) == UNCHANGED vs
Rest1 == <<kind, idx, size, parent>>
Rest2 == <<codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nofork, nn, was, atk>>
DoNew == New(Ev.o) /\ nn' = Put(nn, Ev.o, Ev.n) /\ U(<<Rest1, codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nofork, was, atk>>) /\ Add(<<>>)
DoCall == /\ call' = Put(call, Ev.id, [o |-> Ev.o, op |-> Ev.op, name |-> Ev.name, n |-> Ev.n, sig |-> Ev.sig, live |-> live, on |-> TRUE, start |-> l, end |-> 0, t |-> Ev.t,
                                       tg |-> {c \in held[Ev.o] : About([op |-> Ev.op, name |-> Ev.name], c) /\ ~Starting(c) /\ (c \in loose => Alive(c))},
                                       has |-> Ctls(Ev.o) # {}, lh |-> \E c \in Ctls(Ev.o) \cap loose : ~Alive(c), hs |-> held[Ev.o]])
          /\ busy' = busy \cup {Ev.id} /\ U(<<gvars, Rest1, codes, stale, mine, got, termt, watch, loose, file, dead, nofork, nn, was, atk>>) /\ Add(<<>>)
DoSpawn ==
  IF Ev.id \notin busy THEN U(svars) /\ Add(L1(FALSE, "a process starts that nobody asked for")) ELSE
  LET k == call[Ev.id] IN
  /\ memb' = Put(memb, Ev.c, IF Ev.c \in Comps THEN memb[Ev.c] \cup {Ev.pid} ELSE {Ev.pid}) /\ name' = Put(name, Ev.c, Ev.name) /\ live' = live \cup {Ev.pid} /\ told' = told
  \* a set that has ended makes way for one of its name
  /\ held' = Put(held, k.o, {c \in held[k.o] : name[c] # Ev.name \/ Alive(c)} \cup {Ev.c}) /\ kind' = Put(kind, Ev.c, Ev.kind) /\ idx' = Put(idx, Ev.c, Get(idx, Ev.c, {}) \cup {Ev.idx}) /\ parent' = Put(parent, Ev.c, k.o)
  /\ mine' = Put(mine, Ev.id, Mine(Ev.id) \cup {Ev.c}) /\ size' = Put(size, Ev.c, Get(size, Ev.c, 0) + 1)
  /\ U(<<codes, stale, call, busy, got, termt, watch, loose, file, dead, nofork, nn, was, atk>>)
  /\ Add(L1(k.op \in Starts, "a process starts that nobody asked for")
         \o L1(Ev.ok, "a process is started with the wrong command or environment")
         \o L1(Ev.idx \notin Get(idx, Ev.c, {}), "two engines of a set have the same number")
         \o L1(Ev.kind = "ctl" => (k.op \in {"start_controller", "start_cluster"}) /\ (\A c \in held[k.o] : kind[c] # "ctl" \/ Stopping(c) \/ (c \in loose /\ ~Alive(c))), "a second controller is started")
         \o L1(Ev.kind = "eng" => k.op # "start_controller" /\ (k.op \in {"start_engines", "restart_engines"} /\ k.name # "" => Ev.name = k.name), "a process starts that nobody asked for")
         \o L1(\A c \in Comps \ {Ev.c} : name[c] = Ev.name => ~Alive(c), "a set is started over one that still runs")
         \o L1(Ev.kind = "eng" => ((Ctls(k.o) \subseteq loose /\ Ev.conn = 0) \/ IF Ctls(k.o) = {} /\ ~k.has THEN Ev.conn = 0 ELSE Ev.conn \in stale \cup UNION {memb[c] : c \in Ctls(k.o)} \/ Overlap(Ev.id, Stops \cup {"start_controller", "start_cluster"})),
               "an engine is not told where its controller is"))
DoDie == /\ Die(Ev.pid) /\ codes' = Put(codes, Ev.pid, Ev.code)
         /\ stale' = (IF ~Ev.clean /\ kind[CompOf(Ev.pid)] = "ctl" THEN stale \cup {Ev.pid} ELSE stale)
         /\ U(<<Rest1, call, busy, mine, got, termt, watch, loose, file, dead, nofork, nn, was, atk>>) /\ Add(<<>>)
DoSig ==
  LET c == CompOf(Ev.pid)  k == call[Ev.id] IN
  IF Ev.id \notin DOMAIN call THEN U(svars) /\ Add(L1(FALSE, "a process gets a signal that nobody asked for")) ELSE
  /\ got' = got \cup {<<Ev.id, Ev.pid, Ev.sig>>}
  /\ termt' = (IF Ev.sig = 15 /\ <<Ev.id, Ev.pid>> \notin DOMAIN termt THEN Put(termt, <<Ev.id, Ev.pid>>, Ev.t) ELSE termt)
  /\ U(<<gvars, Rest1, codes, stale, call, busy, mine, watch, loose, file, dead, nofork, nn, was, atk>>)
  /\ Add(L1(k.on, "a signal is sent after the call has returned")
         \o L1(IF k.op = "signal_engines" THEN Ev.sig = k.sig ELSE Ev.sig \in {9, 15}, "a process gets a signal that nobody asked for")
         \o L1(c \in held[k.o] /\ (About(k, c) \/ (k.op \in Starts /\ c \in Mine(Ev.id))), "the wrong process gets a signal")
         \o L1(Ev.sig = 9 /\ k.op # "signal_engines" => <<Ev.id, Ev.pid>> \in DOMAIN termt /\ Ev.t - termt[<<Ev.id, Ev.pid>>] >= 5000, "a process is killed at once")
         \o L1(k.op = "signal_engines" => <<Ev.id, Ev.pid, Ev.sig>> \notin got, "a process gets a signal twice"))
Count(c) == Cardinality(memb[c])
\* the controller of a call came to nothing
NoCtl(k) == \E c \in Comps : kind[c] = "ctl" /\ (c \in k.hs \cup held[k.o] \/ parent[c] = k.o) /\ (~Alive(c) \/ Ev.t - k.t >= 60000)
Excused(k, i) ==
  \/ i \in nofork \/ Overlap(i, Stops)
  \/ k.op \in {"start_controller"} /\ (k.has \/ Overlap(i, {"start_controller", "start_cluster"}))
  \/ k.op = "start_cluster" /\ Overlap(i, {"start_controller"})
  \/ k.op \in {"start_engines", "start_cluster", "restart_engines"} /\ NoCtl(k)
  \/ k.op = "start_engines" /\ k.name # "" /\ (Overlap(i, {"start_engines", "restart_engines"}) \/ \E c \in k.hs \cup held[k.o] : name[c] = k.name)
  \/ k.op \in {"stop_engines", "restart_engines", "signal_engines"} /\ k.name # "" /\ k.tg = {}
  \/ k.op \in Stops /\ (\/ \E c \in k.tg : Alive(c)
                        \/ Ev.exc = "TimeoutError" /\ Ev.t - k.t >= 60000)
  \/ k.op = "restart_engines" /\ Overlap(i, Starts)
  \/ k.op \in Starts /\ stale # {} /\ Ev.exc = "JSONDecodeError"
Engs(i) == {c \in Mine(i) : kind[c] = "eng"}
Complete(c, n) == Count(c) = n /\ idx[c] = 0..(n - 1)
DoRet ==
  LET k == call[Ev.id]  i == Ev.id  n == IF k.n < 0 THEN nn[k.o] ELSE k.n
      late == IF Ev.ok /\ k.op \in Stops THEN {c \in held[k.o] : About(k, c) /\ c \notin Mine(i) /\ c \notin k.tg /\ ~Alive(c)} ELSE {}   \* may have been dropped as well
      gone == IF Ev.ok /\ k.op \in Stops THEN {c \in held[k.o] : About(k, c) /\ c \notin Mine(i) /\ c \in k.tg}
              ELSE IF k.op \in Stops THEN {}   \* what came of it will be seen
              ELSE IF ~Ev.ok THEN {c \in Mine(i) : ~Alive(c) /\ (kind[c] = "eng" \/ k.op = "start_controller")} ELSE {} IN
  /\ Drop(k.o, gone) /\ busy' = busy \ {i}
  /\ call' = Put(call, i, [k EXCEPT !.end = l, !.on = k.op \in Stops /\ ~Ev.ok])
  /\ loose' = (IF ~Ev.ok /\ k.op \in Stops THEN loose \cup k.tg \cup Mine(i) ELSE loose \cup late)
  /\ U(<<Rest1, codes, stale, mine, got, termt, watch, file, dead, nofork, nn, was, atk>>)
  /\ Add((IF ~Ev.ok THEN L1(Excused(k, i), "a call fails without a reason: " \o k.op \o " " \o Ev.exc)
                        \o L1(k.op \in Starts => \A c \in Mine(i) : Alive(c) => ((kind[c] = "ctl" /\ k.op = "start_cluster") \/ (k.op = "restart_engines" /\ k.name = "") \/ Stopping(c)), "a start fails and leaves processes behind")
         ELSE CASE k.op = "start_controller" -> L1(Cardinality(Mine(i)) = 1 /\ \A c \in Mine(i) : kind[c] = "ctl" /\ Count(c) = 1, "not one controller was started")
                [] k.op = "start_engines" -> L1(Cardinality(Engs(i)) = 1 /\ (\A c \in Engs(i) : Complete(c, n) /\ name[c] = Ev.name), "not as many engines as asked for were started")
                [] k.op = "start_cluster" -> L1(Cardinality(Engs(i)) = 1 /\ (\A c \in Engs(i) : Complete(c, n)), "not as many engines as asked for were started")
                                             \o L1((\E c \in Mine(i) : kind[c] = "ctl") = ~k.has \/ k.lh \/ Overlap(i, {"start_controller", "start_cluster"} \cup Stops), "a cluster without one controller")
                [] k.op = "signal_engines" -> L1(\A c \in k.tg : Overlap(i, Stops) \/ \A p \in memb[c] \cap k.live \cap live : <<i, p, k.sig>> \in got, "an engine did not get the signal")
                [] OTHER -> L1(\A c \in k.tg : ~Alive(c), "stopped, but still running"))
         \o (IF Ev.ok /\ k.op = "restart_engines" THEN
               L1(\A c \in k.tg : Overlap(i, Stops \cup Starts) \/ \E d \in Engs(i) : name[d] = name[c] /\ Complete(d, size[c]), "a set is not restarted as it was")
               \o L1(\A d \in Engs(i) : Overlap(i, Starts) \/ \E c \in Comps \ Mine(i) : name[c] = name[d], "another set is started by a restart") ELSE <<>>))
DoWatch == watch' = watch \cup {<<Ev.o, Ev.c>>} /\ U(<<gvars, Rest1, codes, stale, call, busy, mine, got, termt, loose, file, dead, nofork, nn, was, atk>>) /\ Add(<<>>)
DoTold ==
  LET c == Ev.c  cs == {codes[p] : p \in memb[c] \ live} \ {0} IN
  /\ Tell(Ev.o, c) /\ U(<<Rest1, Rest2>>)
  /\ Add(L1(~Alive(c), "told of the end of what still runs")
         \o L1(<<Ev.o, c>> \notin told, "told twice of one end")
         \o L1(parent[c] = Ev.o /\ ~Alive(c) => (IF cs = {} THEN Ev.code = 0 ELSE Ev.code \in cs), "told the wrong exit code"))
\* what the file says
Entry(n) == CHOOSE i \in DOMAIN file'.sets : file'.sets[i].name = n
Must == {c \in KnownAll : Alive(c) /\ ~Starting(c) /\ ~Stopping(c)}
Lists(f, c) == IF kind[c] = "ctl" THEN f.ctl \in memb[c]
               ELSE \E i \in DOMAIN f.sets : f.sets[i].name = name[c] /\ memb[c] \cap live \subseteq Rng(f.sets[i].pids) /\ Rng(f.sets[i].pids) \subseteq memb[c]
FilePids(f) == UNION {Rng(f.sets[i].pids) : i \in DOMAIN f.sets} \cup (IF f.ctl > 0 THEN {f.ctl} ELSE {})
MayList(f) == /\ FilePids(f) \subseteq UNION {memb[c] : c \in KnownAll}
              /\ \A i \in DOMAIN f.sets : \/ \E c \in KnownAll : name[c] = f.sets[i].name /\ Rng(f.sets[i].pids) \subseteq memb[c]
                                          \/ f.sets[i].pids = <<>> /\ busy # {}
DoFile == /\ file' = [there |-> Ev.there, ok |-> Ev.ok, ctl |-> Ev.ctl, sets |-> Ev.sets] /\ U(<<gvars, Rest1, codes, stale, call, busy, mine, got, termt, watch, loose, dead, nofork, nn, was, atk>>)
          /\ Add(IF ~Ev.ok THEN L2(FALSE, "a reader of the cluster file finds half of it")
                 ELSE L2(\A c \in Must : Lists(file', c), "the cluster file leaves out what runs")
                      \o L2(MayList(file'), "the cluster file lists what has ended"))
Heirs == {c \in KnownAll : Alive(c)}
DoCrash == /\ dead' = dead \cup {Ev.o} /\ busy' = {i \in busy : call[i].o # Ev.o} /\ call' = [i \in DOMAIN call |-> IF call[i].o = Ev.o THEN [call[i] EXCEPT !.on = FALSE, !.end = l] ELSE call[i]]
           /\ U(<<gvars, Rest1, codes, stale, mine, got, termt, watch, loose, file, nofork, nn, was, atk>>) /\ Add(<<>>)
DoTaking == was' = Ev.there /\ U(<<gvars, Rest1, codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nofork, nn>>) /\ atk' = live /\ Add(L2(Heirs # {} => Ev.there, "the cluster file leaves out what runs"))
DoTook ==
  /\ IF Ev.ok THEN Takeover(Ev.o, dead) ELSE held' = [x \in Objs |-> IF x \in dead THEN {} ELSE held[x]] /\ UNCHANGED <<memb, name, live, told>>
  /\ nn' = (IF Ev.ok THEN Put(nn, Ev.o, Ev.n) ELSE nn)
  /\ size' = (IF Ev.ok THEN [c \in Comps |-> IF c \in Heirs /\ \A o \in Objs : c \in held[o] => o \in dead THEN Cardinality(memb[c] \cap live) ELSE size[c]] ELSE size)
  /\ U(<<kind, idx, parent, codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nofork, was, atk>>)
  /\ Add(IF ~Ev.ok THEN L2(~was, "a cluster file that cannot be used: " \o Ev.exc)
         ELSE L2(IF \E c \in Heirs : kind[c] = "ctl" THEN \E c \in Heirs : kind[c] = "ctl" /\ Ev.ctl \in memb[c] ELSE Ev.ctl = 0, "the controller is not found again")
              \o L2(\A c \in Heirs : kind[c] = "eng" => \E i \in DOMAIN Ev.sets : Ev.sets[i].name = name[c] /\ Rng(Ev.sets[i].pids) = memb[c] \cap live /\ Ev.sets[i].n = Cardinality(memb[c] \cap live), "running engines are not found again")
              \o L2(\A i \in DOMAIN Ev.sets : \E c \in Heirs : name[c] = Ev.sets[i].name, "engines are found that do not run")
              \o L2(\A i \in DOMAIN file.sets : Rng(file.sets[i].pids) \subseteq atk, "the cluster file lists what has ended"))
DoClean0 == was' = (Heirs # {}) /\ U(<<gvars, Rest1, codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nofork, nn, atk>>) /\ Add(<<>>)
DoCleaned == /\ U(svars)
             /\ Add(IF was THEN L2(Ev.exc = "ValueError" /\ Ev.there /\ Ev.left >= 2, "the files of a running cluster are removed")
                    ELSE L2(Ev.exc = "" /\ ~Ev.there /\ Ev.left = 0, "the files of an ended cluster are not removed"))
DoQuiet ==
  LET o == Ev.o  R == {c \in held[o] : Alive(c)} IN
  /\ U(svars)
  /\ Add(L1(\A w \in watch : w[1] = o /\ ~Alive(w[2]) => w \in told, "nobody is told of an end")
         \o L1(NoOrphan, "a process runs that nobody manages") \o L1(NoClash, "two sets of one name run")
         \o L1(Ev.ctl = (\E c \in R : kind[c] = "ctl") /\ Rng(Ev.sets) = {name[c] : c \in {d \in R : kind[d] = "eng"}}, "what is said to run is not what runs")
         \o L2(file.there = (Heirs # {}), "a cluster file without a running cluster, or the other way round")
         \o L2(\A c \in Heirs : Lists(file, c), "the cluster file leaves out what runs")
         \o L2(\A i \in DOMAIN file.sets : \E c \in Heirs : name[c] = file.sets[i].name, "the cluster file lists what has ended")
         \o L2(file.ctl > 0 => \E c \in Heirs : file.ctl \in memb[c], "the cluster file lists what has ended"))
DoEnd == U(svars) /\ Add(L1(live = {}, "stopped, but still running") \o L1(busy = {}, "a call never returns"))
DoNofork == nofork' = nofork \cup {Ev.id} /\ U(<<gvars, Rest1, codes, stale, call, busy, mine, got, termt, watch, loose, file, dead, nn, was, atk>>) /\ Add(<<>>)
DoRaised == U(svars) /\ Add(L1(FALSE, "an exception: " \o Ev.what))
DoOther == U(svars) /\ Add(<<>>)
Step == CASE Ev.k = "new" -> DoNew [] Ev.k = "call" -> DoCall [] Ev.k = "ret" -> DoRet [] Ev.k = "spawn" -> DoSpawn [] Ev.k = "die" -> DoDie [] Ev.k = "sig" -> DoSig
          [] Ev.k = "watch" -> DoWatch [] Ev.k = "told" -> DoTold [] Ev.k = "file" -> DoFile [] Ev.k = "crash" -> DoCrash [] Ev.k = "taking" -> DoTaking [] Ev.k = "took" -> DoTook
          [] Ev.k = "cleaning" -> DoClean0 [] Ev.k = "cleaned" -> DoCleaned [] Ev.k = "quiet" -> DoQuiet [] Ev.k = "end" -> DoEnd [] Ev.k = "nofork" -> DoNofork
          [] Ev.k = "raised" -> DoRaised [] OTHER -> DoOther
RECURSIVE JoinT(_)
JoinT(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o JoinT(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE JoinT(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<svars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
