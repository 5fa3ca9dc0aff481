------------------------------- MODULE LRUList -------------------------------
(***************************************************************************)
(* Implementation-shaped model of Cache: a fixed set of slots in a doubly  *)
(* linked list ordered by recency, free slots at its old end, and a map    *)
(* from keys to slots.  Checked to refine LRU; its transitions are printed *)
(* as histories and replayed on the real class.                            *)
(***************************************************************************)
EXTENDS LRU, TLC, Json

CONSTANTS Depths, Keys, Vals, MaxOps, EmitOn

VARIABLES depth, occ, key, val, nxt, prv, oldest, newest, acc, abs, hist
st == <<depth, occ, key, val, nxt, prv, oldest, newest, acc, abs>>
vars == <<st, hist>>
S == 1..depth
Nil == 0

Init == /\ depth \in Depths
        /\ occ = [s \in S |-> FALSE] /\ key = [s \in S |-> 0] /\ val = [s \in S |-> 0]
        /\ nxt = [s \in S |-> IF s = depth THEN Nil ELSE s + 1]
        /\ prv = [s \in S |-> s - 1]
        /\ oldest = 1 /\ newest = depth
        /\ acc = [k \in {} |-> 0]
        /\ abs = <<>>
        /\ hist = << [op |-> "new", k |-> depth, v |-> 0] >>
Log(op, k, v) == hist' = Append(hist, [op |-> op, k |-> k, v |-> v])

\* list surgery on L = [n, p, o, w] (next, prev, oldest, newest)
L0 == [n |-> nxt, p |-> prv, o |-> oldest, w |-> newest]
ToNewest(L, e) ==
  IF L.n[e] = Nil THEN L
  ELSE LET p1 == [L.p EXCEPT ![L.n[e]] = L.p[e]]
           n1 == IF L.p[e] # Nil THEN [L.n EXCEPT ![L.p[e]] = L.n[e]] ELSE L.n
           o1 == IF L.p[e] # Nil THEN L.o ELSE L.n[e]
       IN [n |-> [n1 EXCEPT ![e] = Nil, ![L.w] = e], p |-> [p1 EXCEPT ![e] = L.w], o |-> o1, w |-> e]
ToOldest(L, e) ==
  IF L.p[e] = Nil THEN L
  ELSE LET n1 == [L.n EXCEPT ![L.p[e]] = L.n[e]]
           p1 == IF L.n[e] # Nil THEN [L.p EXCEPT ![L.n[e]] = L.p[e]] ELSE L.p
           w1 == IF L.n[e] # Nil THEN L.w ELSE L.p[e]
       IN [p |-> [p1 EXCEPT ![e] = Nil, ![L.o] = e], n |-> [n1 EXCEPT ![e] = L.o], o |-> e, w |-> w1]
SetList(L) == nxt' = L.n /\ prv' = L.p /\ oldest' = L.o /\ newest' = L.w

Full == Cardinality(DOMAIN acc) = depth
Ins(k, v) == /\ ~Full /\ k \notin DOMAIN acc
             /\ occ' = [occ EXCEPT ![oldest] = TRUE] /\ key' = [key EXCEPT ![oldest] = k] /\ val' = [val EXCEPT ![oldest] = v]
             /\ SetList(ToNewest(L0, oldest))
             /\ acc' = [x \in DOMAIN acc \cup {k} |-> IF x = k THEN oldest ELSE acc[x]]
             /\ abs' = LIns(abs, k, v)
             /\ Log("ins", k, v) /\ UNCHANGED depth
Get(k) == /\ k \in DOMAIN acc
          /\ SetList(ToNewest(L0, acc[k])) /\ abs' = LTouch(abs, k)
          /\ Log("get", k, 0) /\ UNCHANGED <<depth, occ, key, val, acc>>
Set(k, v) == /\ k \in DOMAIN acc
             /\ SetList(ToNewest(L0, acc[k])) /\ val' = [val EXCEPT ![acc[k]] = v] /\ abs' = LSet(abs, k, v)
             /\ Log("set", k, v) /\ UNCHANGED <<depth, occ, key, acc>>
Drop(s) == /\ occ' = [occ EXCEPT ![s] = FALSE] /\ key' = [key EXCEPT ![s] = 0] /\ val' = [val EXCEPT ![s] = 0]
           /\ acc' = [x \in DOMAIN acc \ {key[s]} |-> acc[x]]
Evict(k) == /\ k \in DOMAIN acc
            /\ Drop(acc[k]) /\ SetList(ToOldest(L0, acc[k])) /\ abs' = LWithout(abs, k)
            /\ Log("evict", k, 0) /\ UNCHANGED depth
EvictOldest == /\ Full
               /\ Drop(oldest) /\ abs' = Tail(abs)
               /\ Log("old", 0, 0) /\ UNCHANGED <<depth, nxt, prv, oldest, newest>>
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E k \in Keys : Get(k) \/ Evict(k) \/ \E v \in Vals : Ins(k, v) \/ Set(k, v)
           \/ EvictOldest
Spec == Init /\ [][Next]_vars

RECURSIVE Walk(_, _)
Walk(s, n) == IF s = Nil THEN <<>> ELSE IF n = 0 THEN <<Nil>> ELSE <<s>> \o Walk(nxt[s], n - 1)
Order == Walk(oldest, depth)
ListOk == /\ Len(Order) = depth /\ { Order[i] : i \in DOMAIN Order } = S
          /\ newest = Order[depth] /\ prv[oldest] = Nil
          /\ \A i \in 1..(depth - 1) : prv[Order[i + 1]] = Order[i]
          \* free slots come first
          /\ \A i, j \in DOMAIN Order : i < j /\ occ[Order[i]] => occ[Order[j]]
OccSeq == SelectSeq(Order, LAMBDA s : occ[s])
Refines == /\ abs = [i \in DOMAIN OccSeq |-> [k |-> key[OccSeq[i]], v |-> val[OccSeq[i]]]]
           /\ DOMAIN acc = LKeys(abs)
           /\ \A k \in DOMAIN acc : occ[acc[k]] /\ key[acc[k]] = k
Inv == ListOk /\ Refines /\ LWF(abs, depth)
Emit == ~EmitOn \/ PrintT(ToJson([hist |-> hist']))
hidden == st
=============================================================================
