------------------------------ MODULE WireTrace ------------------------------
(* live: what the sender's variables hold; pre: values serialized in advance; msgs: what was on its way *)
EXTENDS Wire, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES live, pre, msgs, ti, l, viol
mvars == <<live, pre, msgs>>
tvars == <<mvars, ti, l, viol>>
Ev == Traces[ti].ev[l]
Put(f, k, v) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN v ELSE f[q]]
TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ viol = <<>> /\ live = <<>> /\ pre = <<>> /\ msgs = <<>>
Add(tags) == viol' = viol \o SelectSeq(tags, LAMBDA x : \A i \in 1..Len(viol) : viol[i][1] # x[1])
T(cond, tag, why) == IF cond THEN <<>> ELSE <<<<tag, why, l>>>>
DoNew == live' = Put(live, Ev.x, Ev.v) /\ UNCHANGED <<pre, msgs>> /\ Add(<<>>)
DoPre == pre' = Put(pre, Ev.x, live[Ev.x]) /\ UNCHANGED <<live, msgs>> /\ Add(T(Ev.ok, "S01", "a value could not be serialized (" \o Ev.ex \o ")"))
Of(a) == IF a.pre THEN pre[a.x] ELSE live[a.x]
\* after a send, the sender's variables hold what they held before
DoSend == /\ msgs' = Put(msgs, Ev.i, [i \in DOMAIN Ev.xs |-> Of(Ev.xs[i])])
          /\ UNCHANGED <<live, pre>>
          /\ Add(T(Ev.ok, "S01", "a value could not be sent (" \o Ev.ex \o ")") \o T(\A i \in DOMAIN Ev.after : Ev.after[i] = live[Ev.xs[i].x], "S01", "sending a value changed it"))
DoRecv == LET m == msgs[Ev.i] all == \A i \in DOMAIN m : Known(m[i], Ev.g) IN
  /\ UNCHANGED mvars
  /\ Add(T((Ev.st = "ok") = all, "S01", "a message could not be unpacked (" \o Ev.st \o ")")
         \o T(Ev.st # "name" \/ ~all, "S01", "a reference was not found")
         \o T(Ev.st # "ok" \/ ~all \/ Len(Ev.vs) = Len(m), "S01", "a value was lost or added")
         \o T(Ev.st # "ok" \/ ~all \/ Len(Ev.vs) # Len(m) \/ \A i \in DOMAIN m : Ev.vs[i] = Arrives(m[i], Ev.g), "S01", "a value arrived changed")
         \o T(Ev.left = 0, "S01", "something of a message is left over"))
Step == CASE Ev.k = "new" -> DoNew [] Ev.k = "pre" -> DoPre [] Ev.k = "send" -> DoSend [] Ev.k = "recv" -> DoRecv
RECURSIVE JoinT(_)
JoinT(s) == IF s = <<>> THEN "" ELSE s[1][1] \o "@" \o ToString(s[1][3]) \o "@" \o s[1][2] \o ";" \o JoinT(Tail(s))
Verdict == "VERDICT " \o ToString(ti) \o " " \o ToString(l - 1) \o " " \o (IF viol = <<>> THEN "-" ELSE JoinT(viol)) \o " END"
TraceNext ==
  \/ l <= Len(Traces[ti].ev) /\ Step /\ l' = l + 1 /\ ti' = ti
  \/ l = Len(Traces[ti].ev) + 1 /\ PrintT(Verdict) /\ l' = l + 1 /\ UNCHANGED <<mvars, ti, viol>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
