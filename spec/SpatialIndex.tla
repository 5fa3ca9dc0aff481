---------------------------- MODULE SpatialIndex ----------------------------
(***************************************************************************)
(* What the spatial index of a chunk library has to be: a set of           *)
(* non-overlapping boxes, each with a payload.  Boxes are half open        *)
(* (start included, end not); coordinates are sequences of naturals.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* entries: set of records [id, v, s, e]
SIn(b, x) == \A i \in DOMAIN x : b.s[i] <= x[i] /\ x[i] < b.e[i]
SMeets(b, s, e) == \A i \in DOMAIN s : b.s[i] < e[i] /\ s[i] < b.e[i]
SAt(ents, x) == { b \in ents : SIn(b, x) }
SBox(ents, s, e) == { b \in ents : SMeets(b, s, e) }
SMinOf(S) == CHOOSE m \in S : \A n \in S : m <= n
SMaxOf(S) == CHOOSE m \in S : \A n \in S : m >= n
SHullS(ents, D) == [i \in 1..D |-> IF ents = {} THEN 0 ELSE SMinOf({ b.s[i] : b \in ents })]
SHullE(ents, D) == [i \in 1..D |-> IF ents = {} THEN 0 ELSE SMaxOf({ b.e[i] : b \in ents })]
SDisjoint(ents) == \A a, b \in ents : a = b \/ ~SMeets(a, b.s, b.e)
SUpdate(ents, x, s, e) == { IF SIn(b, x) THEN [b EXCEPT !.s = s, !.e = e] ELSE b : b \in ents }
SWrite(ents, x, v) == { IF SIn(b, x) THEN [b EXCEPT !.v = v] ELSE b : b \in ents }
=============================================================================
