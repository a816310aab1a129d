-------------------------------- MODULE Wire --------------------------------
(* Values and how they travel.  A value is a tree: k its kind, n what identifies it (and for big leaves, that they
   travel in a buffer of their own), c its parts.                                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
RECURSIVE Arrives(_, _)
\* what arrives in a namespace g: the same value, with references replaced by what they name there
Arrives(v, g) == IF v.k = "R" THEN g[v.n] ELSE [v EXCEPT !.c = [i \in DOMAIN v.c |-> Arrives(v.c[i], g)]]
RECURSIVE Known(_, _)
Known(v, g) == IF v.k = "R" THEN v.n \in DOMAIN g ELSE \A i \in DOMAIN v.c : Known(v.c[i], g)
-----------------------------------------------------------------------------
\* The format.  Big leaves of the parts of a container (or of a partial function) leave the pickle and follow it.
Hole == [k |-> "hole", n |-> "", c |-> <<>>]
Big(v) == v.k = "big"
RECURSIVE FlatS(_)
FlatS(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o FlatS(Tail(s))
\* parts that may leave: of a leaf, itself; of a partial function, its arguments
Own(v) == IF Big(v) THEN <<v>> ELSE IF v.k = "p" THEN FlatS([i \in DOMAIN v.c |-> IF Big(v.c[i]) THEN <<v.c[i]>> ELSE <<>>]) ELSE <<>>
Hollow(v) == IF Big(v) THEN Hole ELSE IF v.k = "p" THEN [v EXCEPT !.c = [i \in DOMAIN v.c |-> IF Big(v.c[i]) THEN Hole ELSE v.c[i]]] ELSE v
Containers == {"l", "d"}
Ser(v) == IF v.k \in Containers THEN <<[v EXCEPT !.c = [i \in DOMAIN v.c |-> Hollow(v.c[i])]]>> \o FlatS([i \in DOMAIN v.c |-> Own(v.c[i])])
          ELSE <<Hollow(v)>> \o Own(v)
\* filling: [v |-> value, b |-> buffers left]
RECURSIVE FillC(_, _, _)
FillC(c, b, done) == IF c = <<>> THEN [c |-> done, b |-> b]
                     ELSE IF Head(c) = Hole THEN FillC(Tail(c), Tail(b), Append(done, Head(b))) ELSE FillC(Tail(c), b, Append(done, Head(c)))
Fill(v, b) == IF v = Hole THEN [v |-> Head(b), b |-> Tail(b)]
              ELSE IF v.k = "p" THEN LET r == FillC(v.c, b, <<>>) IN [v |-> [v EXCEPT !.c = r.c], b |-> r.b] ELSE [v |-> v, b |-> b]
RECURSIVE FillP(_, _, _)
FillP(c, b, done) == IF c = <<>> THEN [c |-> done, b |-> b] ELSE LET r == Fill(Head(c), b) IN FillP(Tail(c), r.b, Append(done, r.v))
Deser(b) == LET v == Head(b) IN IF v.k \in Containers THEN LET r == FillP(v.c, Tail(b), <<>>) IN [v |-> [v EXCEPT !.c = r.c], b |-> r.b] ELSE Fill(v, Tail(b))
\* a message: the values one after the other
Pack(vs) == FlatS([i \in DOMAIN vs |-> Ser(vs[i])])
RECURSIVE Unpack(_, _, _)
Unpack(n, b, done) == IF n = 0 THEN [vs |-> done, b |-> b] ELSE LET r == Deser(b) IN Unpack(n - 1, r.b, Append(done, r.v))
=============================================================================
