------------------------------- MODULE Mapping -------------------------------
(* Parallel maps.  How the positions of a sequence are dealt out to parts, and how parts are put together again;
   and the lazy map: inputs are taken one at a time, never more than a limit ahead of what has finished, and
   results come out in the order of the inputs or in the order they finish.                                      *)
EXTENDS Integers, Sequences, FiniteSets
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
-----------------------------------------------------------------------------
\* positions 1..n in q parts: contiguous blocks whose sizes differ by at most one, the longer ones first
BlockLen(n, q, p) == (n \div q) + (IF p <= n % q THEN 1 ELSE 0)
BlockLow(n, q, p) == (p - 1) * (n \div q) + MinOf(p - 1, n % q)
Block(n, q, p) == [j \in 1..BlockLen(n, q, p) |-> BlockLow(n, q, p) + j]
\* or in stripes
Stripe(n, q, p) == [j \in 1..BlockLen(n, q, p) |-> p + (j - 1) * q]
PartOf(dist, n, q, p) == IF dist = "r" THEN Stripe(n, q, p) ELSE Block(n, q, p)
\* putting parts together
RECURSIVE SumLen(_)
SumLen(ps) == IF ps = <<>> THEN 0 ELSE Len(Head(ps)) + SumLen(Tail(ps))
Join(dist, ps) == IF dist = "r" THEN [i \in 1..SumLen(ps) |-> ps[((i - 1) % Len(ps)) + 1][((i - 1) \div Len(ps)) + 1]] ELSE Flat(ps)
PartsOf(dist, n, q) == [p \in 1..q |-> PartOf(dist, n, q, p)]
DealtOk(dist, n, q) == LET ps == PartsOf(dist, n, q) IN
  /\ Join(dist, ps) = [i \in 1..n |-> i]
  /\ \A i \in 1..n : Cardinality({p \in 1..q : \E j \in DOMAIN ps[p] : ps[p][j] = i}) = 1
  /\ \A p \in 1..q : \A j \in DOMAIN ps[p] : \A k \in DOMAIN ps[p] : j < k => ps[p][j] < ps[p][k]
  /\ \A p \in 1..q : \A r \in 1..q : Len(ps[p]) - Len(ps[r]) <= 1
-----------------------------------------------------------------------------
\* the lazy map; lz is a function from maps to records
NewLazy(n, lim, ordered, rx) == [n |-> n, lim |-> lim, ordered |-> ordered, rx |-> rx, taken |-> 0, fin |-> {}, out |-> <<>>, exhausted |-> FALSE, stopped |-> FALSE, ended |-> FALSE]
CanTake(z) == ~z.exhausted /\ ~z.stopped /\ (z.lim = 0 \/ z.taken - Cardinality(z.fin) < z.lim)
TakeEff(z) == [z EXCEPT !.taken = @ + 1]
ExhaustEff(z) == [z EXCEPT !.exhausted = TRUE]
FinEff(z, i) == [z EXCEPT !.fin = @ \cup {i}]
Yielded(z) == {z.out[i] : i \in DOMAIN z.out}
CanYield(z, i) == ~z.ended /\ i \in z.fin /\ i \notin Yielded(z) /\ (z.ordered => i = Len(z.out) + 1)
YieldEff(z, i) == [z EXCEPT !.out = Append(@, i)]
\* no more inputs are taken once somebody cancelled the map or stopped iterating over it
StopEff(z) == [z EXCEPT !.stopped = TRUE]
CanEnd(z) == (z.exhausted \/ z.stopped) /\ Len(z.out) = z.taken
EndEff(z) == [z EXCEPT !.ended = TRUE, !.stopped = TRUE]
=============================================================================
