------------------------------- MODULE WireMC -------------------------------
(* All messages of a few values of the shapes that the format distinguishes *)
EXTENDS Wire, Json
CONSTANTS MaxArgs, MaxKids, Gen
VARIABLES args, kw, hist
V(k, n, c) == [k |-> k, n |-> n, c |-> c]
SeqsOf(S, m) == UNION {[1..i -> S] : i \in 0..m}
L0 == {V("big", "1", <<>>), V("big", "2", <<>>), V("small", "3", <<>>)}
P1 == {V("p", "", c) : c \in SeqsOf(L0, 2)}
K1 == L0 \cup P1 \cup {V("l", "", <<V("small", "3", <<>>)>>), V("f", "", <<V("big", "1", <<>>)>>)}
Few == L0 \cup {V("p", "", <<V("big", "1", <<>>), V("big", "2", <<>>)>>), V("f", "", <<V("big", "1", <<>>)>>)}
C2 == {V(k, "", c) : k \in {"l", "d"}, c \in SeqsOf(Few, MaxKids)}
Vals == K1 \cup C2
Pick(S) == IF Gen THEN {RandomElement(S)} ELSE S
Init == args = <<>> /\ kw = <<>> /\ hist = 0
AddArg == Len(args) < MaxArgs /\ \E v \in Pick(Vals) : args' = Append(args, v) /\ UNCHANGED <<kw, hist>>
AddKw == Len(kw) < 1 /\ \E v \in Pick(IF Len(args) < 2 \/ Gen THEN Vals ELSE Few) : kw' = Append(kw, v) /\ UNCHANGED <<args, hist>>
Spec == Init /\ [][AddArg \/ AddKw]_<<args, kw, hist>>
M == args \o kw
RoundTrip == LET r == Unpack(Len(M), Pack(M), <<>>) IN r.vs = M /\ r.b = <<>>
\* nothing of a big leaf that may travel on its own stays in the pickle
Split == \A i \in DOMAIN M : LET s == Ser(M[i]) IN Len(s) - 1 = Len(IF M[i].k \in Containers THEN FlatS([j \in DOMAIN M[i].c |-> Own(M[i].c[j])]) ELSE Own(M[i]))
Emit == (Gen /\ Len(args) = MaxArgs /\ Len(kw) = 1) => PrintT("SCRIPT " \o ToJson([args |-> args, kw |-> kw]) \o " TPIRCS")
=============================================================================
