------------------------------- MODULE TaskDB -------------------------------
(* The task database behind the hub: what is stored is what is returned, queries *)
(* follow their documented operators, old records are culled, files persist.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Fields \* all record fields; None is -1
VARIABLES recs,        \* msg id -> record
          ord,         \* insertion order of ids
          culled,      \* ids dropped for size
          lim          \* [kind, recs, bytes, pct]: backend and limits (-1: unlimited)
dbVars == <<recs, ord, culled, lim>>
Ids == DOMAIN recs
DBInit == recs = << >> /\ ord = <<>> /\ culled = {}
Rng(s) == { s[i] : i \in 1..Len(s) }

(* ---- queries ---- *)
RECURSIVE Glob(_, _)
\* p: sequence of [t, s] with t in any, one, in, notin; s: sequence of characters
Glob(p, s) ==
  IF p = <<>> THEN s = <<>>
  ELSE IF p[1].t = "any" THEN Glob(Tail(p), s) \/ (s # <<>> /\ Glob(p, Tail(s)))
  ELSE /\ s # <<>>
       /\ CASE p[1].t = "one" -> TRUE [] p[1].t = "in" -> s[1] \in Rng(p[1].s) [] OTHER -> s[1] \notin Rng(p[1].s)
       /\ Glob(Tail(p), Tail(s))
TestOk(x, c, strs) ==
  CASE c.op = "eq" -> x = c.v
    [] c.op = "ne" -> x # c.v
    [] c.op = "lt" -> x # -1 /\ x < c.v
    [] c.op = "gt" -> x # -1 /\ x > c.v
    [] c.op = "lte" -> x # -1 /\ x <= c.v
    [] c.op = "gte" -> x # -1 /\ x >= c.v
    [] c.op = "in" -> x \in Rng(c.vs)
    [] c.op = "nin" -> x \notin Rng(c.vs)
    [] c.op = "glob" -> x # -1 /\ Glob(c.pat, strs[x])
Matches(check, strs) == { i \in Ids : \A k \in 1..Len(check) : TestOk(recs[i][check[k].f], check[k], strs) }
\* ids in order of submission; records never submitted may be left out
HistOk(hs) == /\ Cardinality(Rng(hs)) = Len(hs) /\ Rng(hs) \subseteq Ids
              /\ \A i \in Ids : recs[i].submitted # -1 => i \in Rng(hs)
              /\ \A a, b \in 1..Len(hs) : a < b /\ recs[hs[a]].submitted # -1 /\ recs[hs[b]].submitted # -1 =>
                    recs[hs[a]].submitted <= recs[hs[b]].submitted

(* ---- culling ---- *)
RECURSIVE Sum(_, _, _)
RSize(r, bs) == (IF r.buffers = -1 THEN 0 ELSE bs[r.buffers]) + (IF r.result_buffers = -1 THEN 0 ELSE bs[r.result_buffers])
Sum(R, S, bs) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN RSize(R[x], bs) + Sum(R, S \ {x}, bs)
Pos(o, x) == CHOOSE k \in 1..Len(o) : o[k] = x
Older(R, o, a, b) == IF R[a].submitted = -1 /\ R[b].submitted = -1 THEN Pos(o, a) < Pos(o, b)
                     ELSE IF R[a].submitted = -1 \/ R[b].submitted = -1 THEN R[b].submitted = -1
                     ELSE R[a].submitted < R[b].submitted \/ (R[a].submitted = R[b].submitted /\ Pos(o, a) < Pos(o, b))
Oldest(R, o, S) == CHOOSE x \in S : \A y \in S \ {x} : Older(R, o, x, y)
RECURSIVE DropN(_, _, _, _), DropSize(_, _, _, _)
DropN(R, o, S, n) == IF n = 0 \/ S = {} THEN S ELSE DropN(R, o, S \ {Oldest(R, o, S)}, n - 1)
DropSize(R, o, S, bs) == IF S = {} \/ Sum(R, S, bs) * 100 <= lim.bytes * (100 - lim.pct) THEN S ELSE DropSize(R, o, S \ {Oldest(R, o, S)}, bs)
CullN == LET n == (lim.pct * lim.recs) \div 100 IN IF n > 1 THEN n ELSE 1
Survivors(R, o, bs) ==
  LET a == IF lim.recs >= 0 /\ Cardinality(DOMAIN R) > lim.recs THEN DropN(R, o, DOMAIN R, CullN) ELSE DOMAIN R
  IN IF lim.bytes >= 0 /\ Sum(R, a, bs) > lim.bytes THEN DropSize(R, o, a, bs) ELSE a
Within(R, S, bs) == (lim.recs >= 0 => Cardinality(S) <= lim.recs) /\ (lim.bytes >= 0 => Sum(R, S, bs) <= lim.bytes)

(* ---- changes; S: the ids that are left ---- *)
Restrict(R, S) == [i \in S |-> R[i]]
Keep(S) == SelectSeq(ord, LAMBDA x : x \in S)
Patched(r, u) == [f \in Fields |-> IF f \in DOMAIN u THEN u[f] ELSE r[f]]
AddRec(i, r) == [x \in Ids \cup {i} |-> IF x = i THEN r ELSE recs[x]]
UpdRec(i, u) == [recs EXCEPT ![i] = Patched(@, u)]
SetEff(R, o, S) == recs' = Restrict(R, S) /\ ord' = SelectSeq(o, LAMBDA x : x \in S) /\ culled' = culled \cup (DOMAIN R \ S) /\ UNCHANGED lim
DropEff(D) == recs' = Restrict(recs, Ids \ D) /\ ord' = Keep(Ids \ D) /\ UNCHANGED <<culled, lim>>
=============================================================================
