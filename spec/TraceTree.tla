------------------------------ MODULE TraceTree ------------------------------
(***************************************************************************)
(* Accepts a recorded execution of RStarTree iff its lookups are those of  *)
(* SpatialIndex and the dumped structure is a well-formed balanced tree    *)
(* over exactly the current entries.                                       *)
(***************************************************************************)
EXTENDS SpatialIndex, SequencesExt, TLC, Json, IOUtils

MaxFan == 10
MinFan == 2

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ents, dims, packed, l       \* packed: rebuilt in bulk since the last clear
vars == <<ents, dims, packed, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1
Same == UNCHANGED <<ents, dims, packed>>
Vals(S) == { b.v : b \in S }
\* the sequence lists the payloads of exactly these entries, each once (payloads are distinct)
Lists(q, S) == Len(q) = Cardinality(S) /\ { q[i] : i \in DOMAIN q } = Vals(S)

Init == ents = {} /\ dims = 1 /\ packed = FALSE /\ l = 1
Reset == Is("Reset") /\ ents' = {} /\ dims' = 1 /\ packed' = FALSE
New == Is("TNew") /\ ev.r = 1 /\ ents' = {} /\ dims' = ev.dims /\ packed' = FALSE
Ins == Is("TIns") /\ ev.r = ev.v /\ ents' = ents \cup { [id |-> ev.v, v |-> ev.v, s |-> ev.s, e |-> ev.e] } /\ UNCHANGED <<dims, packed>>
InsN == /\ Is("TInsN") /\ Len(ev.r) = Len(ev.b) /\ (\A i \in DOMAIN ev.b : ev.r[i] = ev.b[i].v) = TRUE
        /\ ents' = ents \cup { [id |-> ev.b[i].v, v |-> ev.b[i].v, s |-> ev.b[i].s, e |-> ev.b[i].e] : i \in DOMAIN ev.b } /\ UNCHANGED <<dims, packed>>
Upd == Is("TUpd") /\ ev.r = 1 /\ ents' = SUpdate(ents, ev.x, ev.s, ev.e) /\ UNCHANGED <<dims, packed>>
Pt == Is("TPt") /\ (LET S == SAt(ents, ev.x) IN IF S = {} THEN ev.r = -1 ELSE {ev.r} = Vals(S)) /\ Same
Set == Is("TSet") /\ (LET S == SAt(ents, ev.x) IN IF S = {} THEN ev.r = -1 /\ UNCHANGED ents
                                                  ELSE {ev.r} = Vals(S) /\ ents' = SWrite(ents, ev.x, ev.v)) /\ UNCHANGED <<dims, packed>>
Box == Is("TBox") /\ Lists(ev.r, SBox(ents, ev.s, ev.e)) /\ Same
All == Is("TAll") /\ Lists(ev.r, ents) /\ Same
App == Is("TApply") /\ Lists(ev.r, ents) /\ ents' = { [b EXCEPT !.v = @ + ev.d] : b \in ents } /\ UNCHANGED <<dims, packed>>
BB == Is("TBB") /\ ev.s = SHullS(ents, dims) /\ ev.e = SHullE(ents, dims) /\ Same
Empty == Is("TEmpty") /\ ev.r = (IF ents = {} THEN 1 ELSE 0) /\ Same
Rebuild == Is("TRebuild") /\ ev.r = 1 /\ ents # {} /\ packed' = TRUE /\ UNCHANGED <<ents, dims>>
Clear == Is("TClear") /\ ev.r = 1 /\ ents' = {} /\ packed' = FALSE /\ UNCHANGED dims

\* the dump is the preorder list of nodes [lv, s, e] and entries (lv = -1)
\* the parent of an element is the last node before it that is one level higher
ParStep(t, a, k) == [last |-> [a.last EXCEPT ![t[k].lv + 2] = k], par |-> Append(a.par, IF k = 1 THEN 0 ELSE a.last[t[k].lv + 3])]
Parents(t) == FoldLeft(LAMBDA a, k : ParStep(t, a, k), [last |-> [i \in 1..(t[1].lv + 3) |-> 0], par |-> <<>>], [k \in DOMAIN t |-> k]).par
Inside(a, b) == \A i \in DOMAIN a.s : b.s[i] <= a.s[i] /\ a.e[i] <= b.e[i]
Preorder(t) ==
  /\ t[1].lv >= 0
  /\ \A k \in 2..Len(t) : /\ t[k].lv < t[1].lv /\ t[k].lv >= -1
                          /\ t[k].lv >= t[k - 1].lv - 1
                          /\ t[k - 1].lv >= 0 => t[k].lv = t[k - 1].lv - 1
  /\ t[Len(t)].lv = -1
\* a bulk rebuild fills nodes in groups of MaxFan: the last ones may hold fewer than MinFan
MinOf(j, top) == IF packed \/ (j = 1 /\ top = 0) THEN 1 ELSE MinFan
DumpOk(t, par) ==
  LET leaves == { k \in 2..Len(t) : t[k].lv = -1 }
      nodes == DOMAIN t \ leaves
      kids == TLCEval(FoldLeft(LAMBDA a, k : IF par[k] = 0 THEN a ELSE [a EXCEPT ![par[k]] = @ + 1], [k \in DOMAIN t |-> 0], [k \in DOMAIN t |-> k]))
  IN /\ \A k \in 2..Len(t) : Inside(t[k], t[par[k]])
     /\ \A j \in nodes : kids[j] <= MaxFan /\ kids[j] >= MinOf(j, t[1].lv)
     /\ Cardinality(leaves) = Cardinality(ents)
     /\ { <<t[k].s, t[k].e>> : k \in leaves } = { <<b.s, b.e>> : b \in ents }
     /\ t[1].s = SHullS(ents, dims) /\ t[1].e = SHullE(ents, dims)
Dump ==
  /\ Is("TDump")
  /\ IF ents = {} THEN ev.t = <<>>
     ELSE /\ (Len(ev.t) > 1 /\ Preorder(ev.t)) = TRUE
          /\ \E t \in {TLCEval(ev.t)} : \E par \in {TLCEval(Parents(t))} : DumpOk(t, par) = TRUE
  /\ Same
Next == Reset \/ New \/ Ins \/ InsN \/ Upd \/ Pt \/ Set \/ Box \/ All \/ App \/ BB \/ Empty \/ Rebuild \/ Clear \/ Dump
Spec == Init /\ [][Next]_vars
WF == Cardinality(Vals(ents)) = Cardinality(ents)
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
