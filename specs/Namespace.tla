------------------------------ MODULE Namespace ------------------------------
(* The namespaces of the engines.  A value is a record [k |-> kind, v |-> tokens].  A request is a small program that
   an engine runs on its own namespace; it stops at the first error, and what it did before stays.  Sequences are
   scattered in parts and gathered from them (module Mapping).                                                     *)
EXTENDS Mapping, TLC
NoVal == [k |-> "?", v |-> <<>>]
I0 == [op |-> "", d |-> "", x |-> "", y |-> "", val |-> NoVal]
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
Drop(f, k) == [q \in DOMAIN f \ {k} |-> f[q]]
Lists == {"l"}
RECURSIVE Exec(_, _, _)
\* what a program does to a namespace: the namespace after it, how it ended, and what it read
Exec(ns, prog, out) ==
  IF prog = <<>> THEN [ns |-> ns, st |-> "ok", out |-> out]
  ELSE LET i == Head(prog) rest == Tail(prog) End(st) == [ns |-> ns, st |-> st, out |-> out] IN
    CASE i.op = "set" -> Exec(Put(ns, i.d, i.val), rest, out)
      [] i.op = "cp" -> IF i.x \in DOMAIN ns THEN Exec(Put(ns, i.d, ns[i.x]), rest, out) ELSE End("name")
      [] i.op = "cat" -> IF {i.x, i.y} \subseteq DOMAIN ns
                         THEN IF ns[i.x].k \in Lists /\ ns[i.y].k \in Lists THEN Exec(Put(ns, i.d, [k |-> "l", v |-> ns[i.x].v \o ns[i.y].v]), rest, out) ELSE End("type")
                         ELSE End("name")
      [] i.op = "del" -> IF i.x \in DOMAIN ns THEN Exec(Drop(ns, i.x), rest, out) ELSE End("name")
      [] i.op = "get" -> IF i.x \in DOMAIN ns THEN Exec(ns, rest, Append(out, ns[i.x])) ELSE End("name")
      [] i.op = "lit" -> Exec(ns, rest, Append(out, i.val))
      [] OTHER -> End("fail")
-----------------------------------------------------------------------------
\* the part of a sequence that goes to the p-th of q engines: slices keep the kind of the sequence
SliceKind(k) == IF k \in {"l", "t", "a", "A", "r"} THEN k ELSE "l"
PartVal(dist, val, q, p) == LET ps == PartOf(dist, Len(val.v), q, p) IN [k |-> SliceKind(val.k), v |-> [j \in DOMAIN ps |-> val.v[ps[j]]]]
\* parts put together again; anything else that is gathered is not specified
Arrays == {"a", "A"}
AllIn(ps, S) == \A i \in DOMAIN ps : ps[i].k \in S
Striped(ps) == \A i \in DOMAIN ps : \A j \in DOMAIN ps : i < j => Len(ps[i].v) - Len(ps[j].v) \in {0, 1}
Stripes(vs) == LET m == CHOOSE x \in {Len(vs[i]) : i \in DOMAIN vs} : \A i \in DOMAIN vs : Len(vs[i]) <= x
               IN Flat([r \in 1..m |-> Flat([p \in DOMAIN vs |-> IF r <= Len(vs[p]) THEN <<vs[p][r]>> ELSE <<>>])])
JoinVals(dist, ps) == LET vs == [i \in DOMAIN ps |-> ps[i].v] IN IF dist = "r" THEN Stripes(vs) ELSE Flat(vs)
\* (an element takes the place of a sequence that has one element if the scatter asked for that)
Joined(k) == CASE k = "a" -> {"a", "s"} [] k = "A" -> {"A", "R"} [] OTHER -> {"l", "t", "r", "s"}
\* what cannot be joined is not specified
Loose(dist, ps) ==
  \/ ps[1].k \notin {"l", "t", "r"} \cup Arrays /\ ~AllIn(ps, {"s"})
  \/ ps[1].k \in {"l", "t", "r"} /\ ~AllIn(ps, Joined("l"))
  \/ ps[1].k \in Arrays /\ (~AllIn(ps, Joined(ps[1].k)) \/ (dist = "r" /\ ~Striped(ps)))
GatherOk(dist, ps, val) ==
  \/ ps[1].k \in {"l", "t", "r"} /\ AllIn(ps, Joined("l")) /\ val = [k |-> "l", v |-> JoinVals(dist, ps)]
  \/ ps[1].k \in Arrays /\ AllIn(ps, Joined(ps[1].k)) /\ val = [k |-> ps[1].k, v |-> JoinVals(dist, ps)]
  \/ AllIn(ps, {"s"}) /\ val = [k |-> "l", v |-> JoinVals(dist, ps)]
  \/ Loose(dist, ps)
=============================================================================
