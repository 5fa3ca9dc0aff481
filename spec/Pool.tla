--------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* What a memory pool is: a set of slots in use, each holding a value.     *)
(* slot is a function from the slots in use to values.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

PEmpty == [s \in {} |-> 0]
PTake(slot, s, v) == [x \in DOMAIN slot \cup {s} |-> IF x = s THEN v ELSE slot[x]]
PDrop(slot, s) == [x \in DOMAIN slot \ {s} |-> slot[x]]
PCanTake(slot, s) == s >= 0 /\ s \notin DOMAIN slot
\* a list shows exactly the values in use: same number of occurrences of every value
PCount(slot, v) == Cardinality({ s \in DOMAIN slot : slot[s] = v })
PLists(slot, q) == /\ Len(q) = Cardinality(DOMAIN slot)
                   /\ \A i \in DOMAIN q : Cardinality({ j \in DOMAIN q : q[j] = q[i] }) = PCount(slot, q[i])
=============================================================================
