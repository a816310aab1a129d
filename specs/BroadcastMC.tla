----------------------------- MODULE BroadcastMC -----------------------------
(* The tree of schedulers: a node per binary path, root <<>>, leaves at depth D.  *)
(* Each node splits targets by the next bit of the engine id and coalesces the     *)
(* replies of its children.  Its boundary behaviour must be that of Broadcast.     *)
EXTENDS Broadcast, Json, TLC
CONSTANTS D, Gen
VARIABLES down,   \* messages to nodes: <<node, m, targets>>
          up,     \* coalesced replies to nodes: <<node, m, child, targets, toks, sts>>
          acc,    \* <<node, m>> -> child -> [t, k, s] received
          hist
mcvars == <<bVars, down, up, acc, hist>>
Pow2 == [n \in 0..4 |-> 2 ^ n]
Bit(e, n, d) == (e \div Pow2[d - n]) % 2            \* n-th bit (1 = most significant) of d
Path(e) == [n \in 1..D |-> Bit(e % Pow2[D], n, D)]
Nodes == UNION { [1..n -> {0, 1}] : n \in 0..D }
Leaf(n) == Len(n) = D
Sel(ts, n, b) == SelectSeq(ts, LAMBDA e : Path(e)[Len(n) + 1] = b)
Init == BInit /\ down = {} /\ up = {} /\ hist = <<>> /\ acc = [n \in Nodes |-> [m \in Msgs |-> [want |-> <<>>, got |-> << >>]]]
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Seqs == { s \in UNION { [1..n -> Engines] : n \in 1..Cardinality(Engines) } : \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Submit == \E m \in Msgs, ts \in Seqs, c \in BOOLEAN :
            /\ req[m] = NoReq /\ \A x \in Msgs : x < m => req[x] # NoReq
            /\ SubmitEff(m, ts, c) /\ down' = down \cup {<<<<>>, m, ts>>} /\ UNCHANGED <<up, acc>> /\ Log([k |-> "sub", m |-> m, ts |-> ts, c |-> c])
Split == \E x \in down : LET n == x[1] m == x[2] ts == x[3] IN
           /\ ~Leaf(n) /\ UNCHANGED <<bVars, up>> /\ Log([k |-> "net"])
           /\ down' = (down \ {x}) \cup { <<Append(n, b), m, Sel(ts, n, b)>> : b \in {0, 1} }
           /\ acc' = [acc EXCEPT ![n][m] = [want |-> SelectSeq(<<0, 1>>, LAMBDA b : Sel(ts, n, b) # <<>>), got |-> << >>]]
\* leaf: one copy to each target; modelled one engine at a time
Fan == \E x \in down : LET n == x[1] m == x[2] ts == x[3] IN
           /\ Leaf(n) /\ UNCHANGED up /\ Log([k |-> "net"])
           /\ IF ts = <<>> THEN down' = down \ {x} /\ UNCHANGED <<bVars, acc>>
              ELSE /\ CopyEff(m, ts[1])
                   /\ down' = (down \ {x}) \cup (IF Len(ts) > 1 THEN {<<n, m, Tail(ts)>>} ELSE {})
                   /\ acc' = [acc EXCEPT ![n][m] = [want |-> Append(@.want, ts[1]), got |-> @.got]]
Put(g, k, v) == [x \in DOMAIN g \cup {k} |-> IF x = k THEN v ELSE g[x]]
\* a node has everything (and nothing more is coming down to it): pass it on
Full(a, m, n) == DOMAIN a.got = Rng(a.want) /\ ~\E x \in down : x[1] = n /\ x[2] = m
Merge(a) == <<Cat([i \in 1..Len(a.want) |-> a.got[a.want[i]].t]), Cat([i \in 1..Len(a.want) |-> a.got[a.want[i]].k]),
              UNION { a.got[c].s : c \in DOMAIN a.got }>>
Coalesced(n, m, a) == LET g == Merge(a) IN
   IF n = <<>> THEN CoalOk(m, IF g[3] = {"ok"} THEN "ok" ELSE CHOOSE s \in g[3] : s # "ok", g[1], g[2]) ELSE TRUE
Reply == \E m \in Msgs, e \in Engines, st \in {"ok", "error"} :
           /\ e \in copied[m] /\ answer[m][e].st = "none"
           /\ AnswerEff(m, e, st, e) /\ Log([k |-> "rep", m |-> m, e |-> e, st |-> st]) /\ UNCHANGED down
           /\ IF req[m].coal
              THEN up' = up \cup {<<Path(e), m, e, <<e>>, IF st = "ok" THEN <<e>> ELSE <<>>, {st}>>} /\ UNCHANGED acc
              ELSE up' = up \cup {<<<<>>, m, e, <<e>>, <<e>>, {st}>>} /\ UNCHANGED acc
UpOne == \E x \in up : LET n == x[1] m == x[2] c == x[3] IN
           /\ Log([k |-> "net"]) /\ UNCHANGED down
           /\ IF ~req[m].coal THEN OutEff(m, c) /\ up' = up \ {x} /\ UNCHANGED acc
              ELSE LET a == [acc[n][m] EXCEPT !.got = Put(@, c, [t |-> x[4], k |-> x[5], s |-> x[6]])] IN
                   /\ acc' = [acc EXCEPT ![n][m] = a]
                   /\ IF ~Full(a, m, n) THEN up' = up \ {x} /\ UNCHANGED bVars
                      ELSE IF n = <<>> THEN up' = up \ {x} /\ CoalEff(m)
                      ELSE /\ up' = (up \ {x}) \cup {<<SubSeq(n, 1, Len(n) - 1), m, n[Len(n)], Merge(a)[1], Merge(a)[2], Merge(a)[3]>>}
                           /\ UNCHANGED bVars
Next == Submit \/ Split \/ Fan \/ Reply \/ UpOne
Idle == (down = {} /\ up = {} /\ \A m \in Msgs : req[m] # NoReq /\ Answered(m) = Targets(m)) /\ UNCHANGED mcvars
Spec == Init /\ [][Next \/ Idle]_mcvars
\* boundary properties of the tree
CopiesOk == \A m \in Msgs : copied[m] \subseteq Targets(m)
OnePerTarget == [][\A m \in Msgs, e \in Engines : (e \in copied'[m] /\ e \notin copied[m]) => CopyOk(m, e)]_mcvars
CoalExact == [][\A m \in Msgs : (req[m].coal /\ outed'[m] # outed[m]) =>
                  \E x \in up : x[1] = <<>> /\ x[2] = m /\ Coalesced(<<>>, m, acc'[<<>>][m])]_mcvars
OutExact == [][\A m \in Msgs, e \in Engines : (~req[m].coal /\ e \in outed'[m] \ outed[m]) => e \in Answered(m)]_mcvars
Done == (down = {} /\ up = {}) => \A m \in Msgs : Settled(m)
Emit == (Gen /\ Len(hist) > 0 /\ down = {} /\ up = {} /\ \A m \in Msgs : req[m] # NoReq /\ Answered(m) = Targets(m)) => PrintT("SCRIPT " \o ToJson([d |-> D, ops |-> hist]) \o " TPIRCS")
=============================================================================
