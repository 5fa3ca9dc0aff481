-------------------------------- MODULE RTree --------------------------------
(***************************************************************************)
(* Implementation-shaped model of RStarTree in one dimension: nodes with   *)
(* at most Max children, insertion that descends, extends the boxes on     *)
(* its way and treats overflow by forced reinsertion (once per insertion)  *)
(* or by a split, resizing of an entry with recalculation along its path,  *)
(* bulk rebuild, and a remembered last result of the point search.  The    *)
(* choice of the subtree, of the reinserted children and of the split are  *)
(* left open: whatever the heuristics choose, lookups must be exact.       *)
(***************************************************************************)
EXTENDS SpatialIndex, TLC, Json

CONSTANTS Max, Min, P, Width, MaxEnts, MaxOps, EmitOn
ASSUME Min >= 1 /\ Max + 1 >= 2 * Min /\ P >= 1 /\ P <= Max

VARIABLES root, memo, ents, hist
vars == <<root, memo, ents, hist>>

\* nodes and entries are both "items" with a box; entries have level -1
Entry(b) == [lv |-> -1, id |-> b.id, s |-> b.s[1], e |-> b.e[1], ch |-> {}]
Hull(it, kids) == [it EXCEPT !.s = SMinOf({ k.s : k \in kids }), !.e = SMaxOf({ k.e : k \in kids }), !.ch = kids]
Node(lv, kids) == Hull([lv |-> lv, id |-> 0, s |-> 0, e |-> 0, ch |-> {}], kids)
None == [lv |-> -2, id |-> 0, s |-> 0, e |-> 0, ch |-> {}]
Extend(n, it) == [n EXCEPT !.s = IF it.s < n.s THEN it.s ELSE n.s, !.e = IF it.e > n.e THEN it.e ELSE n.e]

Splits(kids) == { A \in SUBSET kids : Cardinality(A) >= Min /\ Cardinality(kids \ A) >= Min }
\* an overfull node is split, or loses P children which are inserted again from the root
Treat(n, isroot, first) ==
  IF Cardinality(n.ch) <= Max THEN { [n |-> n, x |-> {}, re |-> {}] }
  ELSE IF first /\ ~isroot
       THEN { [n |-> Hull(n, n.ch \ R), x |-> {}, re |-> R] : R \in { R \in SUBSET n.ch : Cardinality(R) = P } }
       ELSE { [n |-> Node(n.lv, A), x |-> { Node(n.lv, n.ch \ A) }, re |-> {}] : A \in Splits(n.ch) }
RECURSIVE Ins(_, _, _, _)
Ins(n, it, isroot, first) ==
  LET m == Extend(n, it) IN
  IF n.lv = it.lv + 1 THEN Treat([m EXCEPT !.ch = m.ch \cup {it}], isroot, first)
  ELSE UNION { UNION { IF r.x = {} THEN { [n |-> [m EXCEPT !.ch = (m.ch \ {c}) \cup {r.n}], x |-> {}, re |-> r.re] }
                       ELSE Treat([m EXCEPT !.ch = (m.ch \ {c}) \cup {r.n} \cup r.x], isroot, first)
                       : r \in Ins(c, it, FALSE, first) } : c \in m.ch }
Grow(r) == IF r.x = {} THEN r.n ELSE Node(r.n.lv + 1, {r.n} \cup r.x)
RECURSIVE InsAll(_, _)
InsAll(rt, items) ==
  IF items = {} THEN {rt}
  ELSE UNION { UNION { InsAll(Grow(r), items \ {it}) : r \in Ins(rt, it, TRUE, FALSE) } : it \in items }
Insert(rt, it) ==
  IF rt = None THEN { Node(0, {it}) }
  ELSE UNION { InsAll(Grow(r), r.re) : r \in Ins(rt, it, TRUE, TRUE) }

\* the entry holding x gets a new box; the boxes of its ancestors are recalculated (children, not extended)
RECURSIVE Find(_, _)
Find(n, x) == IF n.lv = -1 THEN n.s <= x /\ x < n.e ELSE \E c \in n.ch : Find(c, x)
RECURSIVE Upd(_, _, _, _)
Upd(n, x, s, e) ==
  IF n.lv = -1 THEN [n EXCEPT !.s = s, !.e = e]
  ELSE LET c == CHOOSE c \in n.ch : Find(c, x) IN Hull(n, (n.ch \ {c}) \cup { Upd(c, x, s, e) })

\* point search: children whose box does not contain x are not entered
RECURSIVE Look(_, _)
Look(n, x) == IF n.lv = -1 THEN (IF n.s <= x /\ x < n.e THEN {n.id} ELSE {})
              ELSE UNION { IF c.s <= x /\ x < c.e THEN Look(c, x) ELSE {} : c \in n.ch }
RECURSIVE Range(_, _, _)
Range(n, s, e) == IF n.lv = -1 THEN (IF n.s < e /\ s < n.e THEN <<n.id>> ELSE <<>>)
                  ELSE LET f[K \in SUBSET n.ch] == IF K = {} THEN <<>>
                                                   ELSE LET c == CHOOSE c \in K : TRUE
                                                        IN (IF c.s < e /\ s < c.e THEN Range(c, s, e) ELSE <<>>) \o f[K \ {c}]
                       IN f[n.ch]
EntOf(id) == CHOOSE b \in ents : b.id = id
Search(x) == IF memo # 0 /\ SIn(EntOf(memo), <<x>>) THEN {memo} ELSE IF root = None THEN {} ELSE Look(root, x)

\* bulk rebuild: groups of Max in the order of the centres
RECURSIVE Pack(_, _)
Pack(items, lv) ==
  LET ord == CHOOSE q \in [1..Cardinality(items) -> items] :
               \A i, j \in 1..Cardinality(items) : i < j => q[i] # q[j] /\ (q[i].s + q[i].e) \div 2 <= (q[j].s + q[j].e) \div 2
      n == Cardinality(items)
      g == { { ord[i] : i \in { i \in 1..n : (i - 1) \div Max = k } } : k \in 0..((n - 1) \div Max) }
      nodes == { Node(lv, q) : q \in g }
  IN IF Cardinality(nodes) = 1 THEN CHOOSE q \in nodes : TRUE ELSE Pack(nodes, lv + 1)

Init == root = None /\ memo = 0 /\ ents = {} /\ hist = <<>>
Log(op, x, s, e) == hist' = Append(hist, [op |-> op, x |-> x, s |-> s, e |-> e])
Boxes == { <<s, e>> \in (0..Width) \X (0..Width) : s < e /\ e <= s + 2 }
DoIns == \E b \in Boxes :
           /\ Cardinality(ents) < MaxEnts
           /\ SBox(ents, <<b[1]>>, <<b[2]>>) = {}
           /\ LET r == [id |-> Cardinality(ents) + 1, v |-> 0, s |-> <<b[1]>>, e |-> <<b[2]>>] IN
                /\ ents' = ents \cup {r}
                /\ root' \in Insert(root, Entry(r))
           /\ Log("ins", 0, b[1], b[2]) /\ UNCHANGED memo
DoUpd == \E en \in ents : \E b \in Boxes :
           LET x == en.s[1] IN
           /\ <<en.s[1], en.e[1]>> # b
           /\ SBox(ents \ {en}, <<b[1]>>, <<b[2]>>) = {}
           /\ ents' = SUpdate(ents, <<x>>, <<b[1]>>, <<b[2]>>)
           /\ root' = Upd(root, x, b[1], b[2])
           /\ Log("upd", x, b[1], b[2]) /\ UNCHANGED memo
DoFind == \E x \in 0..Width : /\ memo' = (IF Search(x) = {} THEN memo ELSE CHOOSE i \in Search(x) : TRUE)
                              /\ memo' # memo
                              /\ Log("find", x, 0, 0) /\ UNCHANGED <<root, ents>>
DoRebuild == /\ root # None /\ root' = Pack({ Entry(b) : b \in ents }, 0) /\ memo' = 0
             /\ Log("rebuild", 0, 0, 0) /\ UNCHANGED ents
DoClear == root # None /\ root' = None /\ memo' = 0 /\ ents' = {} /\ Log("clear", 0, 0, 0)
Next == Len(hist) < MaxOps /\ (DoIns \/ DoUpd \/ DoFind \/ DoRebuild \/ DoClear)
Spec == Init /\ [][Next]_vars

RECURSIVE WF(_, _)
WF(n, isroot) == \/ n.lv = -1
                 \/ /\ n.lv >= 0 /\ n.ch # {} /\ Cardinality(n.ch) <= Max
                    /\ \A c \in n.ch : c.lv = n.lv - 1 /\ n.s <= c.s /\ c.e <= n.e /\ WF(c, FALSE)
RECURSIVE Leaves(_)
Leaves(n) == IF n.lv = -1 THEN 1 ELSE LET f[K \in SUBSET n.ch] == IF K = {} THEN 0 ELSE LET c == CHOOSE c \in K : TRUE IN Leaves(c) + f[K \ {c}] IN f[n.ch]
RECURSIVE EntsOf(_)
EntsOf(n) == IF n.lv = -1 THEN {n} ELSE UNION { EntsOf(c) : c \in n.ch }
Tree == root # None => /\ WF(root, TRUE) /\ EntsOf(root) = { Entry(b) : b \in ents } /\ Leaves(root) = Cardinality(ents)
                       /\ <<root.s>> = SHullS(ents, 1) /\ <<root.e>> = SHullE(ents, 1)
Exact == /\ (root = None) = (ents = {})
         /\ \A x \in 0..(Width + 1) : Search(x) = { b.id : b \in SAt(ents, <<x>>) }
         /\ root # None => \A s, e \in 0..(Width + 1) : s < e =>
              LET q == Range(root, s, e) IN { q[i] : i \in DOMAIN q } = { b.id : b \in SBox(ents, <<s>>, <<e>>) }
                                            /\ Len(q) = Cardinality(SBox(ents, <<s>>, <<e>>))
Inv == SDisjoint(ents) /\ Tree /\ Exact
Emit == ~EmitOn \/ PrintT(ToJson([hist |-> hist']))
hidden == <<root, memo, ents>>
=============================================================================
