------------------------------ MODULE TaskDBMC ------------------------------
EXTENDS TaskDB, TLC, Json
CONSTANTS Gen, MaxOps, MIds, Times, Toks, RLims, BLims, Pcts
VARIABLES hist, ops, bytes
mcvars == <<dbVars, hist, ops, bytes>>
BS == <<1, 2, 4>>
ToksN == { IF b = 0 THEN -1 ELSE b : b \in Toks }   \* config files have no negative numbers
Init == DBInit /\ hist = <<>> /\ ops = 0 /\ bytes = 0 /\ \E a \in RLims, b \in BLims, p \in Pcts : lim = [recs |-> IF a = 99 THEN -1 ELSE a, bytes |-> IF b = 99 THEN -1 ELSE b, pct |-> p]
Log(r) == hist' = (IF Gen THEN Append(hist, r) ELSE hist) /\ ops' = ops + 1
Rec(i, t, c, b) == [msg_id |-> i, submitted |-> t, completed |-> c, buffers |-> b, result_buffers |-> -1]
Set(R, o) == LET S == Survivors(R, o, BS) IN SetEff(R, o, S) /\ bytes' = Sum(R, S, BS)
Add == \E i \in MIds \ (Ids \cup culled), t \in Times, b \in ToksN :
          Set(AddRec(i, Rec(i, t, -1, b)), Append(ord, i)) /\ Log([k |-> "add", i |-> i, t |-> t, b |-> b])
Upd == \E i \in Ids, c \in Times, b \in ToksN :
          LET u == [completed |-> c, result_buffers |-> b]
          IN Set(UpdRec(i, u), ord) /\ Log([k |-> "upd", i |-> i, c |-> c, b |-> b])
Drop == \E i \in Ids : DropEff({i}) /\ bytes' = bytes - RSize(recs[i], BS) /\ Log([k |-> "drop", i |-> i])
Chk(o, f, v) == <<[f |-> f, op |-> o, v |-> v, vs |-> <<v>>]>>
DropM == \E o \in {"eq", "ne", "lt", "gte", "nin"}, f \in {"submitted", "completed", "msg_id"}, v \in Times \cup {-1} :
          /\ (v = -1 => o \in {"eq", "ne"} /\ f # "msg_id") /\ (f = "msg_id" => v \in MIds)
          /\ LET D == Matches(Chk(o, f, v), << >>) IN DropEff(D) /\ bytes' = bytes - Sum(recs, D, BS)
          /\ Log([k |-> "dropm", op |-> o, f |-> f, v |-> v])
Next == (ops < MaxOps /\ (Add \/ Upd \/ Drop \/ DropM)) \/ (ops = MaxOps /\ UNCHANGED mcvars)
Spec == Init /\ [][Next]_mcvars
\* limits are never exceeded after an operation, byte accounting is exact, bookkeeping is consistent
InLimits == Within(recs, Ids, BS)
Bytes == bytes = Sum(recs, Ids, BS)
OrdOk == Rng(ord) = Ids /\ Len(ord) = Cardinality(Ids) /\ Ids \cap culled = {}
\* only records older than every survivor are culled
OldestGo == [][\A c \in culled' \ culled : c \notin Ids \/ \A s \in DOMAIN recs' : s \in Ids => recs[s].submitted = -1 \/ (recs[c].submitted # -1 /\ recs[c].submitted <= recs[s].submitted)]_mcvars
Emit == (Gen /\ ops = MaxOps) => PrintT("SCRIPT " \o ToJson([lim |-> lim, ops |-> hist]) \o " TPIRCS")
=============================================================================
