------------------------------ MODULE Cluster ------------------------------
(* The processes of a cluster, the objects that manage them, and the file that describes them.
   A component is one start of a controller or of a set of engines. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES memb,    \* component -> its processes
          name,    \* component -> its name; "" is the controller
          live,    \* processes that run
          held,    \* object -> components that it started or found, and has not stopped
          told     \* <<object, component>>: the object was told that the component has ended
gvars == <<memb, name, live, held, told>>
GInit == memb = <<>> /\ name = <<>> /\ live = {} /\ held = <<>> /\ told = {}
Comps == DOMAIN memb
Objs == DOMAIN held
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Alive(c) == memb[c] \cap live # {}
Known(o) == {c \in held[o] : <<o, c>> \notin told}
KnownAll == UNION {Known(o) : o \in Objs}
New(o) == held' = Put(held, o, {}) /\ UNCHANGED <<memb, name, live, told>>
\* one process of a component starts
Spawn(o, c, n, p) == /\ memb' = Put(memb, c, IF c \in Comps THEN memb[c] \cup {p} ELSE {p})
                     /\ name' = Put(name, c, n) /\ live' = live \cup {p} /\ held' = Put(held, o, held[o] \cup {c}) /\ UNCHANGED told
Die(p) == live' = live \ {p} /\ UNCHANGED <<memb, name, held, told>>
Tell(o, c) == told' = told \cup {<<o, c>>} /\ UNCHANGED <<memb, name, live, held>>
\* stopped on request
Drop(o, cs) == held' = Put(held, o, held[o] \ cs) /\ UNCHANGED <<memb, name, live, told>>
\* another object takes over from those that are no more
Takeover(o, dead) == /\ held' = [x \in Objs \cup {o} |-> IF x = o THEN {c \in KnownAll : Alive(c)} ELSE IF x \in dead THEN {} ELSE held[x]]
                     /\ UNCHANGED <<memb, name, live, told>>
-----------------------------------------------------------------------------
\* which components a file may list: all that run, and nothing that is known to have ended
FileOk(must, file) == must \subseteq file /\ file \subseteq KnownAll
\* nothing is left running that nobody manages
NoOrphan == \A c \in Comps : Alive(c) => c \in KnownAll
NoClash == \A c, d \in KnownAll : Alive(c) /\ Alive(d) /\ name[c] = name[d] => c = d
=============================================================================
