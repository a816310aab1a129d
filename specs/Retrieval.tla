------------------------------ MODULE Retrieval ------------------------------
(* What the hub keeps of requests, and what clients may be told about them.
   A request is recorded (rec) when the hub hears of it or of output that it made, known (hrd) when the hub has the request itself, finished (fin) when the hub has its result, and may be
   dropped (drp) by a purge; one that was dropped comes back if the hub hears of it only then.  A client asks at one moment, the hub answers at a later one, and the client learns it
   at a third: what it is told must have been right at some moment in between.  c0 is what there was when it asked. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
\* known to the hub all the time / at some time since c0
Always(h, c0, r) == r \in c0.hrd /\ r \notin h.drp
Ever(h, c0, r) == r \in h.rec /\ r \notin c0.drp \ h.back
\* a request for rs (those of loc are at hand): refused as unknown?
MayRefuse(h, c0, rs, loc) == \E r \in Rng(rs) \ loc : ~Always(h, c0, r)
MayAnswer(h, c0, rs, loc) == \A r \in Rng(rs) \ loc : Ever(h, c0, r)
\* the answer to a status request
StatusOk(h, c0, rs, loc, comp, pend) ==
  /\ NoDup(comp) /\ NoDup(pend) /\ Rng(comp) \cap Rng(pend) = {} /\ Rng(comp) \cup Rng(pend) = Rng(rs)
  /\ Rng(comp) \subseteq loc \cup h.fin
  /\ \A r \in Rng(pend) : r \notin loc /\ r \notin (c0.fin \ c0.drp) \cap (h.rec \ h.drp)
\* may a result still not be there?  mine: requests whose own reply the client still waits for
MayWait(h, c0, rs, loc, mine) == \E r \in Rng(rs) : r \in mine \/ (r \notin loc /\ (r \notin c0.fin \/ ~Always(h, c0, r)))
=============================================================================
