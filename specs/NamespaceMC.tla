----------------------------- MODULE NamespaceMC -----------------------------
(* One client and engines that take requests in the order in which they were sent; clears overtake requests. *)
EXTENDS Namespace, Json
CONSTANTS Engines, Names, MaxO, MaxClr, Gen
VARIABLES ns, q, ops, ctl, outs, clrs, hist
vars == <<ns, q, ops, ctl, outs, clrs, hist>>
ASSUME \A n \in 0..7, k \in {"l", "t", "a", "r"}, d \in {"b", "r"}, m \in 1..4 :
  LET val == [k |-> k, v |-> [i \in 1..n |-> 10 + i]] ps == [p \in 1..m |-> PartVal(d, val, m, p)] IN
  GatherOk(d, ps, [k |-> IF k = "a" THEN "a" ELSE "l", v |-> val.v]) /\ ~GatherOk(d, ps, [k |-> "l", v |-> Append(val.v, 0)])
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Val(o) == [k |-> "l", v |-> <<o>>]
Progs(o) == {<<[I0 EXCEPT !.op = "set", !.d = n, !.val = Val(o)]>> : n \in Names}
       \cup {<<[I0 EXCEPT !.op = "get", !.x = n]>> : n \in Names}
       \cup {<<[I0 EXCEPT !.op = "set", !.d = n, !.val = Val(o)], [I0 EXCEPT !.op = "cat", !.d = m, !.x = n, !.y = m]>> : n \in Names, m \in Names}
       \cup {<<[I0 EXCEPT !.op = "cp", !.d = n, !.x = m], [I0 EXCEPT !.op = "del", !.x = m]>> : n \in Names, m \in Names}
Init == ns = [e \in Engines |-> <<>>] /\ q = [e \in Engines |-> <<>>] /\ ops = <<>> /\ ctl = {} /\ outs = <<>> /\ clrs = 0 /\ hist = <<>>
Sub == \E es \in (SUBSET Engines) \ {{}} : \E p \in Progs(Len(ops) + 1) :
  /\ Len(ops) < MaxO /\ ops' = Append(ops, [es |-> es, p |-> p]) /\ outs' = Append(outs, <<>>)
  /\ q' = [e \in Engines |-> IF e \in es THEN Append(q[e], Len(ops) + 1) ELSE q[e]]
  /\ UNCHANGED <<ns, ctl, clrs>> /\ Log([k |-> "op", es |-> es, p |-> p])
Run == \E e \in Engines : q[e] # <<>> /\ LET o == Head(q[e]) r == Exec(ns[e], ops[o].p, <<>>) IN
  /\ ns' = [ns EXCEPT ![e] = r.ns] /\ outs' = [outs EXCEPT ![o] = Put(@, e, r)] /\ q' = [q EXCEPT ![e] = Tail(@)]
  /\ UNCHANGED <<ops, ctl, clrs>> /\ Log([k |-> "net"])
Clear == clrs < MaxClr /\ clrs' = clrs + 1 /\ ctl' = ctl \cup Engines /\ UNCHANGED <<ns, q, ops, outs>> /\ Log([k |-> "clear"])
Ctl == \E e \in ctl : ns' = [ns EXCEPT ![e] = <<>>] /\ ctl' = ctl \ {e} /\ UNCHANGED <<q, ops, outs, clrs>> /\ Log([k |-> "net"])
Next == Sub \/ Run \/ Clear \/ Ctl
Idle == Len(ops) = MaxO /\ ctl = {} /\ clrs = MaxClr /\ (\A e \in Engines : q[e] = <<>>) /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Idle]_vars
RECURSIVE Fold(_, _, _)
Fold(n, e, i) == IF i > Len(ops) THEN n ELSE Fold(IF e \in ops[i].es THEN Exec(n, ops[i].p, <<>>).ns ELSE n, e, i + 1)
\* without clears, an engine's namespace is what its requests make of it in the order in which they were sent
Folded == clrs = 0 => \A e \in Engines : q[e] = <<>> => ns[e] = Fold(<<>>, e, 1)
\* a value read was written by an earlier request to that engine, or is made of such values
NoStrays == \A o \in DOMAIN outs : \A e \in DOMAIN outs[o] : \A i \in DOMAIN outs[o][e].out : \A t \in DOMAIN outs[o][e].out[i].v :
  LET w == outs[o][e].out[i].v[t] IN w <= o /\ e \in ops[w].es
\* read your own writes
Reads == clrs = 0 => \A o \in DOMAIN outs : \A e \in DOMAIN outs[o] : \A w \in 1..(o - 1) :
  (ops[o].p[1].op = "get" /\ e \in ops[w].es /\ Len(ops[w].p) = 1 /\ ops[w].p[1].op = "set" /\ ops[w].p[1].d = ops[o].p[1].x
   /\ \A j \in (w + 1)..(o - 1) : e \in ops[j].es => ops[j].p[1].op = "get") => outs[o][e].out = <<Val(w)>>
Emit == (Gen /\ Len(ops) = MaxO /\ ctl = {} /\ \A e \in Engines : q[e] = <<>>) => PrintT("SCRIPT " \o ToJson([n |-> Cardinality(Engines), ops |-> hist]) \o " TPIRCS")
=============================================================================
