------------------------------ MODULE PoolLists ------------------------------
(***************************************************************************)
(* Implementation-shaped model of MemoryPool: slots linked into a list of  *)
(* free and a list of allocated ones (next / prev stored with the slot),   *)
(* taken from the front of the free list, released to its back; the pool   *)
(* doubles when no slot is free.                                           *)
(***************************************************************************)
EXTENDS Pool, TLC, Json

CONSTANTS Inits, MaxCap, Handles, MaxOps, EmitOn

VARIABLES init0, cap, data, nxt, prv, fs, fe, as, ae,  \* free / allocated start and end
          hnd,                                           \* handle -> slot it was given (-1: none)
          abs, hist
st == <<init0, cap, data, nxt, prv, fs, fe, as, ae, hnd, abs>>
vars == <<st, hist>>
Nil == -1
S == 0..(cap - 1)

\* lists as records [n, p, s, e] over the common link arrays
Back(n, p, s, e, x) ==
  IF e # Nil THEN [n |-> [n EXCEPT ![e] = x, ![x] = Nil], p |-> [p EXCEPT ![x] = e], s |-> s, e |-> x]
  ELSE [n |-> [n EXCEPT ![x] = Nil], p |-> [p EXCEPT ![x] = Nil], s |-> x, e |-> x]
Cut(n, p, s, e, x) ==
  LET n1 == IF p[x] # Nil THEN [n EXCEPT ![p[x]] = n[x]] ELSE n
      p1 == IF n[x] # Nil THEN [p EXCEPT ![n[x]] = p[x]] ELSE p
  IN [n |-> n1, p |-> p1, s |-> IF p[x] # Nil THEN s ELSE n[x], e |-> IF n[x] # Nil THEN e ELSE p[x]]
RECURSIVE Backs(_, _, _)
Backs(r, x, hi) == IF x > hi THEN r ELSE Backs(Back(r.n, r.p, r.s, r.e, x), x + 1, hi)

Fresh(c) == Backs([n |-> [x \in 0..(c - 1) |-> Nil], p |-> [x \in 0..(c - 1) |-> Nil], s |-> Nil, e |-> Nil], 0, c - 1)
Grown(n, p, s, e) ==
  Backs([n |-> [x \in 0..(2 * cap - 1) |-> IF x < cap THEN n[x] ELSE Nil],
         p |-> [x \in 0..(2 * cap - 1) |-> IF x < cap THEN p[x] ELSE Nil], s |-> s, e |-> e], cap, 2 * cap - 1)

Init == /\ init0 \in Inits /\ cap = init0
        /\ data = [x \in S |-> 0]
        /\ LET r == Fresh(cap) IN nxt = r.n /\ prv = r.p /\ fs = r.s /\ fe = r.e
        /\ as = Nil /\ ae = Nil
        /\ hnd = [h \in Handles |-> Nil] /\ abs = PEmpty
        /\ hist = << [op |-> "new", h |-> init0] >>
Log(op, h) == hist' = Append(hist, [op |-> op, h |-> h])

Alloc(h) ==
  /\ hnd[h] = Nil
  /\ fs = Nil => 2 * cap <= MaxCap
  /\ LET g == IF fs = Nil THEN Grown(nxt, prv, fs, fe) ELSE [n |-> nxt, p |-> prv, s |-> fs, e |-> fe]
         x == g.s
         f == Cut(g.n, g.p, g.s, g.e, x)
         a == Back(f.n, f.p, as, ae, x)
     IN /\ cap' = IF fs = Nil THEN 2 * cap ELSE cap
        /\ nxt' = a.n /\ prv' = a.p /\ fs' = f.s /\ fe' = f.e /\ as' = a.s /\ ae' = a.e
        /\ data' = [y \in DOMAIN a.n |-> IF y = x THEN h ELSE IF y < cap THEN data[y] ELSE 0]
        /\ PCanTake(abs, x)
        /\ hnd' = [hnd EXCEPT ![h] = x] /\ abs' = PTake(abs, x, h)
  /\ Log("alloc", h) /\ UNCHANGED init0
Release(h) ==
  /\ hnd[h] # Nil
  /\ LET x == hnd[h]
         a == Cut(nxt, prv, as, ae, x)
         f == Back(a.n, a.p, fs, fe, x)
     IN /\ nxt' = f.n /\ prv' = f.p /\ fs' = f.s /\ fe' = f.e /\ as' = a.s /\ ae' = a.e
        /\ hnd' = [hnd EXCEPT ![h] = Nil] /\ abs' = PDrop(abs, x)
        /\ data' = [data EXCEPT ![x] = 0]
  /\ Log("free", h) /\ UNCHANGED <<init0, cap>>
Reset ==
  /\ cap' = init0 /\ data' = [x \in 0..(init0 - 1) |-> 0]
  /\ LET r == Fresh(init0) IN nxt' = r.n /\ prv' = r.p /\ fs' = r.s /\ fe' = r.e
  /\ as' = Nil /\ ae' = Nil /\ hnd' = [h \in Handles |-> Nil] /\ abs' = PEmpty
  /\ Log("reset", 0) /\ UNCHANGED init0
Grow ==
  /\ 2 * cap <= MaxCap
  /\ LET g == Grown(nxt, prv, fs, fe) IN
       /\ cap' = 2 * cap /\ nxt' = g.n /\ prv' = g.p /\ fs' = g.s /\ fe' = g.e
       /\ data' = [x \in DOMAIN g.n |-> IF x < cap THEN data[x] ELSE 0]
  /\ Log("grow", 0) /\ UNCHANGED <<init0, as, ae, hnd, abs>>
Next == /\ Len(hist) <= MaxOps
        /\ \/ \E h \in Handles : Alloc(h) \/ Release(h)
           \/ Reset \/ Grow
Spec == Init /\ [][Next]_vars

RECURSIVE Walk(_, _)
Walk(s, n) == IF s = Nil THEN <<>> ELSE IF n = 0 THEN <<Nil>> ELSE <<s>> \o Walk(nxt[s], n - 1)
FreeL == Walk(fs, cap)
AllocL == Walk(as, cap)
Range(q) == { q[i] : i \in DOMAIN q }
LinkOk(q, s, e) == IF q = <<>> THEN s = Nil /\ e = Nil
                   ELSE /\ s = q[1] /\ e = q[Len(q)] /\ prv[s] = Nil
                        /\ \A i \in 1..(Len(q) - 1) : prv[q[i + 1]] = q[i]
Inv == /\ LinkOk(FreeL, fs, fe) /\ LinkOk(AllocL, as, ae)
       /\ Range(FreeL) \cap Range(AllocL) = {} /\ Range(FreeL) \cup Range(AllocL) = S
       /\ Len(FreeL) + Len(AllocL) = cap
       /\ DOMAIN abs = Range(AllocL)
       /\ \A s \in DOMAIN abs : abs[s] = data[s]
       /\ PLists(abs, [i \in DOMAIN AllocL |-> data[AllocL[i]]])
Emit == ~EmitOn \/ PrintT(ToJson([hist |-> hist']))
hidden == st
=============================================================================
