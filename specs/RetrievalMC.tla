----------------------------- MODULE RetrievalMC -----------------------------
(* Two clients and the hub.  What a client asks reaches the hub later, and the answer reaches the client later still. *)
EXTENDS Retrieval, Json
CONSTANTS MaxR, MaxAsk, Gen
VARIABLES h, sent, ran, own, cache, ask, asks, busy, hist
vars == <<h, sent, ran, own, cache, ask, asks, busy, hist>>
C == {1, 2}
R == 1..MaxR
H0 == [rec |-> {}, fin |-> {}, drp |-> {}, back |-> {}, hrd |-> {}]
None == [op |-> "none", rs |-> <<>>, c0 |-> H0, loc |-> {}, ans |-> "none", comp |-> <<>>]
ASSUME LET g == [rec |-> {1, 2, 3}, fin |-> {1, 2}, drp |-> {2}, back |-> {}, hrd |-> {1, 2, 3}] IN
  /\ StatusOk(g, g, <<1, 3>>, {}, <<1>>, <<3>>) /\ ~StatusOk(g, g, <<1, 3>>, {}, <<>>, <<1, 3>>) /\ ~StatusOk(g, g, <<1, 3>>, {}, <<1>>, <<>>)
  /\ MayRefuse(g, g, <<2>>, {}) /\ ~MayAnswer(g, g, <<2>>, {}) /\ MayAnswer(g, g, <<2>>, {2}) /\ ~MayRefuse(g, g, <<1, 3>>, {})
  /\ ~MayWait(g, g, <<1>>, {}, {}) /\ MayWait(g, g, <<3>>, {}, {}) /\ ~MayWait(g, g, <<3>>, {3}, {}) /\ MayWait(g, g, <<3>>, {3}, {3}) /\ MayWait(g, g, <<1>>, {}, {1})
Log(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Init == h = H0 /\ sent = {} /\ ran = {} /\ own = [c \in C |-> {}] /\ cache = [c \in C |-> {}] /\ ask = [c \in C |-> None] /\ asks = 0 /\ busy = FALSE /\ hist = <<>>
New == Cardinality(sent) + 1
How == IF New % 3 = 2 THEN "fail" ELSE "ok"
Sub == \E c \in IF Gen \/ sent # {} THEN C ELSE {1} : New <= MaxR /\ sent' = sent \cup {New} /\ own' = [own EXCEPT ![c] = @ \cup {New}]
       /\ UNCHANGED <<h, ran, cache, ask, asks, busy>> /\ Log([k |-> "sub", c |-> c, r |-> New, how |-> How])
Net == [k |-> "net"]
Rec == \E r \in sent \ h.rec : h' = [h EXCEPT !.rec = @ \cup {r}, !.hrd = @ \cup {r}] /\ UNCHANGED <<sent, ran, own, cache, ask, asks, busy>> /\ Log(Net)
Run == \E r \in sent \ ran : ~busy /\ ran' = ran \cup {r} /\ UNCHANGED <<h, sent, own, cache, ask, asks, busy>> /\ Log(Net)
Fin == \E r \in (ran \cap h.rec) \ h.fin : h' = [h EXCEPT !.fin = @ \cup {r}] /\ UNCHANGED <<sent, ran, own, cache, ask, asks, busy>> /\ Log(Net)
Reply == \E c \in C : \E r \in (own[c] \cap ran) \ cache[c] : cache' = [cache EXCEPT ![c] = @ \cup {r}] /\ UNCHANGED <<h, sent, ran, own, ask, asks, busy>> /\ Log(Net)
Busy == asks < MaxAsk /\ Gen /\ busy' = ~busy /\ UNCHANGED <<h, sent, ran, own, cache, ask, asks>> /\ Log([k |-> "busy", on |-> ~busy])
Pairs == {<<r>> : r \in sent} \cup {p \in sent \X sent : Gen \/ p[1] < p[2]}
Ask == \E c \in C :
  /\ ask[c].op = "none" /\ asks < MaxAsk /\ asks' = asks + 1
  /\ \E rs \in {x \in Pairs : NoDup(x)} : \E op \in {"status", "results", "purge"} :
     /\ ask' = [ask EXCEPT ![c] = [op |-> op, rs |-> rs, c0 |-> h, loc |-> IF op = "purge" THEN {} ELSE cache[c], ans |-> "none", comp |-> <<>>]]
     /\ UNCHANGED <<h, sent, ran, own, cache, busy>>
     /\ Log(CASE op = "purge" -> [k |-> "purge", c |-> c, rs |-> rs, what |-> "hub"] [] op = "status" -> [k |-> "status", c |-> c, rs |-> rs, only |-> TRUE]
              [] OTHER -> [k |-> "get_result", c |-> c, rs |-> rs])
\* the hub answers from what it has then
Known == h.rec \ h.drp
Answer == \E c \in C : LET a == ask[c] IN
  /\ a.op # "none" /\ a.ans = "none"
  /\ IF a.op = "purge"
     THEN IF \E r \in Rng(a.rs) \cap Known : r \notin h.fin
          THEN ask' = [ask EXCEPT ![c].ans = "idx"] /\ h' = h
          ELSE ask' = [ask EXCEPT ![c].ans = "ok"] /\ h' = [h EXCEPT !.drp = @ \cup (Rng(a.rs) \cap Known)]
     ELSE /\ h' = h
          /\ IF \E r \in Rng(a.rs) \ a.loc : r \notin Known THEN ask' = [ask EXCEPT ![c].ans = "key"]
             ELSE ask' = [ask EXCEPT ![c].ans = "ok", ![c].comp = SelectSeq(a.rs, LAMBDA r : r \in a.loc \cup h.fin)]
  /\ UNCHANGED <<sent, ran, own, cache, asks, busy>> /\ Log(Net)
Learn == \E c \in C : ask[c].ans # "none" /\ ask' = [ask EXCEPT ![c] = None]
  /\ cache' = [cache EXCEPT ![c] = IF ask[c].op = "results" THEN @ \cup Rng(ask[c].comp) ELSE @]
  /\ UNCHANGED <<h, sent, ran, own, asks, busy>> /\ Log(IF ask[c].op = "results" THEN [k |-> "get", c |-> c, rs |-> ask[c].rs] ELSE Net)
Next == Sub \/ Rec \/ Run \/ Fin \/ Reply \/ Ask \/ Answer \/ Learn \/ Busy
Idle == ~ENABLED Next /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Idle]_vars
Pend(a) == SelectSeq(a.rs, LAMBDA r : r \notin Rng(a.comp))
\* every answer is right all the way to the client, whatever happens meanwhile
Right == \A c \in C : LET a == ask[c] IN a.ans # "none" /\ a.op # "purge" =>
  IF a.ans = "key" THEN MayRefuse(h, a.c0, a.rs, a.loc)
  ELSE MayAnswer(h, a.c0, a.rs, a.loc) /\ StatusOk(h, a.c0, a.rs, a.loc, a.comp, Pend(a)) /\ (Pend(a) # <<>> => MayWait(h, a.c0, a.rs, a.loc, {}))
\* nobody has results of what did not run, the hub forgets only what is over
Truth == (\A c \in C : cache[c] \subseteq ran) /\ h.fin \subseteq ran /\ h.drp \subseteq h.fin /\ h.fin \subseteq h.rec /\ h.rec \subseteq sent
Purged == \A c \in C : ask[c].op = "purge" /\ ask[c].ans = "ok" => Rng(ask[c].rs) \cap ask[c].c0.rec \subseteq h.drp
Emit == (Gen /\ asks = MaxAsk /\ \A c \in C : ask[c].op = "none") => PrintT("SCRIPT " \o ToJson([ops |-> hist]) \o " TPIRCS")
=============================================================================
