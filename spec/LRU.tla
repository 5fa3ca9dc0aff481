--------------------------------- MODULE LRU ---------------------------------
(***************************************************************************)
(* What a cache of fixed depth is: the entries it contains, least recently *)
(* used first.  Entries are records [k, v] with pairwise distinct keys.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

LHas(c, k) == \E i \in DOMAIN c : c[i].k = k
LAt(c, k) == CHOOSE i \in DOMAIN c : c[i].k = k
LVal(c, k) == c[LAt(c, k)].v
LWithout(c, k) == SelectSeq(c, LAMBDA x : x.k # k)
LFree(c, depth) == Len(c) < depth
LIns(c, k, v) == Append(c, [k |-> k, v |-> v])
LTouch(c, k) == Append(LWithout(c, k), c[LAt(c, k)])
LSet(c, k, v) == Append(LWithout(c, k), [k |-> k, v |-> v])
LKeys(c) == { c[i].k : i \in DOMAIN c }
LOldToNew(c) == [i \in DOMAIN c |-> c[i].v]
LNewToOld(c) == [i \in DOMAIN c |-> c[Len(c) + 1 - i].v]
LWF(c, depth) == /\ Len(c) <= depth
                 /\ \A i, j \in DOMAIN c : i # j => c[i].k # c[j].k
=============================================================================
