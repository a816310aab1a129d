----------------------------- MODULE ClusterMC -----------------------------
(* One managing object after another. Ends are noticed some time after they happen; the file is rewritten, in one
   step, at starts, stops and notices; whoever takes over knows only the file. *)
EXTENDS Cluster, TLC, Json
CONSTANTS MaxC, MaxN, MaxOps, Gen, Torn
VARIABLES file,   \* components that the file lists
          torn,   \* the file is being written
          cur,    \* the object that manages the cluster; 0 after a crash
          nobj, ops, nops
mvars == <<gvars, file, torn, cur, nobj, ops, nops>>
Init == memb = <<>> /\ name = <<>> /\ live = {} /\ held = [o \in {1} |-> {}] /\ told = {} /\ file = {} /\ torn = FALSE /\ cur = 1 /\ nobj = 1 /\ ops = <<>> /\ nops = 0
Op(o) == ops' = (IF Gen THEN Append(ops, o) ELSE ops) /\ nops' = nops + 1
NewC == Cardinality(Comps) + 1
Nm(c) == IF c = 0 THEN "" ELSE <<"s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8">>[c]
Ids(n) == {100 * NewC + i : i \in 1..n}
Managed == Known(cur)
Write == file' = {c \in held'[cur] : <<cur, c>> \notin told'} /\ torn' = torn
MStart(k, n) ==
  /\ cur # 0 /\ ~torn /\ NewC <= MaxC /\ (k = 0 => (\A c \in held[cur] : name[c] # "") /\ n = 1)
  /\ memb' = Put(memb, NewC, Ids(n)) /\ name' = Put(name, NewC, Nm(IF k = 0 THEN 0 ELSE NewC)) /\ live' = live \cup Ids(n)
  /\ held' = Put(held, cur, held[cur] \cup {NewC}) /\ UNCHANGED <<told, cur, nobj>> /\ Write
  /\ Op([k |-> IF k = 0 THEN "ctl" ELSE "set", n |-> n, c |-> NewC])
MDie(p) == /\ Die(p) /\ UNCHANGED <<file, torn, cur, nobj>>
           /\ LET c == CHOOSE d \in Comps : p \in memb[d] IN Op([k |-> "die", n |-> p - 100 * c, c |-> c])
MNotice(c) == cur # 0 /\ ~torn /\ c \in Managed /\ ~Alive(c) /\ Tell(cur, c) /\ Write /\ UNCHANGED <<cur, nobj, ops, nops>>
\* stopping ends every process of what is stopped, then rewrites the file
MStop(cs) == /\ cur # 0 /\ ~torn /\ cs # {} /\ cs \subseteq held[cur]
             /\ live' = live \ UNION {memb[c] : c \in cs} /\ held' = Put(held, cur, held[cur] \ cs) /\ UNCHANGED <<memb, name, told, cur, nobj>>
             /\ Write
             /\ Op([k |-> IF cs = held[cur] THEN "stopall" ELSE "stop", n |-> 0, c |-> CHOOSE c \in cs : TRUE])
MCrash == cur # 0 /\ file # {} /\ cur' = 0 /\ UNCHANGED <<gvars, file, torn, nobj>> /\ Op([k |-> "take", n |-> 0, c |-> 0])
MTake == /\ cur = 0 /\ nobj' = nobj + 1 /\ cur' = nobj + 1
         /\ held' = [x \in Objs \cup {nobj + 1} |-> IF x = nobj + 1 THEN {c \in IF torn THEN {} ELSE file : Alive(c)} ELSE {}] /\ UNCHANGED <<memb, name, live, told>>
         /\ file' = held'[nobj + 1] /\ torn' = FALSE /\ UNCHANGED <<ops, nops>>
\* a file that is written in place can be caught half written
MTear == Torn /\ cur # 0 /\ ~torn /\ file # {} /\ torn' = TRUE /\ UNCHANGED <<gvars, file, cur, nobj, ops, nops>>
MMend == torn /\ cur # 0 /\ torn' = FALSE /\ UNCHANGED <<gvars, file, cur, nobj, ops, nops>>
Next == \/ /\ nops < MaxOps
           /\ \/ \E k \in {0, 1}, n \in 1..MaxN : MStart(k, n)
              \/ \E p \in live : MDie(p)
              \/ \E c \in (IF cur = 0 THEN {} ELSE held[cur]) : MStop({c})
              \/ cur # 0 /\ MStop(held[cur])
              \/ MCrash
        \/ MTake \/ MTear \/ MMend
        \/ \E c \in Comps : MNotice(c)
Spec == Init /\ [][Next]_mvars
FileRight == FileOk({c \in KnownAll : Alive(c)}, file)
Orphans == NoOrphan
AtRest == (cur # 0 /\ \A c \in Managed : Alive(c)) => /\ Managed = {c \in Comps : Alive(c)} /\ file = Managed
Emit == Gen => (nops = MaxOps /\ cur # 0 => PrintT("SCRIPT " \o ToJson([ops |-> ops]) \o " TPIRCS"))
=============================================================================
