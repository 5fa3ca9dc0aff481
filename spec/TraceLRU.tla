------------------------------ MODULE TraceLRU -------------------------------
(* Accepts a recorded execution of Cache iff it is a behaviour of LRU. *)
EXTENDS LRU, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, depth, l
vars == <<c, depth, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1
Same == UNCHANGED <<c, depth>>

Init == c = <<>> /\ depth = 0 /\ l = 1
Reset == Is("Reset") /\ c' = <<>> /\ depth' = 0
New == Is("CNew") /\ ev.r = 1 /\ c' = <<>> /\ depth' = ev.depth
Ins == Is("CIns") /\ ev.r = 1 /\ ~LHas(c, ev.k) /\ LFree(c, depth) /\ c' = LIns(c, ev.k, ev.v) /\ UNCHANGED depth
Get == Is("CGet") /\ LHas(c, ev.k) /\ ev.v = LVal(c, ev.k) /\ c' = LTouch(c, ev.k) /\ UNCHANGED depth
Set == Is("CSet") /\ ev.r = 1 /\ LHas(c, ev.k) /\ c' = LSet(c, ev.k, ev.v) /\ UNCHANGED depth
Evict == Is("CEvict") /\ LHas(c, ev.k) /\ ev.v = LVal(c, ev.k) /\ c' = LWithout(c, ev.k) /\ UNCHANGED depth
Old == Is("COld") /\ ~LFree(c, depth) /\ ev.v = c[1].v /\ c' = Tail(c) /\ UNCHANGED depth
Has == Is("CHas") /\ ev.v = (IF LHas(c, ev.k) THEN 1 ELSE 0) /\ Same
Free == Is("CFree") /\ ev.v = (IF LFree(c, depth) THEN 1 ELSE 0) /\ Same
All == Is("CAll") /\ Len(ev.v) = Len(c) /\ { ev.v[i] : i \in DOMAIN ev.v } = LKeys(c) /\ Same
O2N == Is("CO2N") /\ ev.v = LOldToNew(c) /\ Same
N2O == Is("CN2O") /\ ev.v = LNewToOld(c) /\ Same
Next == Reset \/ New \/ Ins \/ Get \/ Set \/ Evict \/ Old \/ Has \/ Free \/ All \/ O2N \/ N2O
Spec == Init /\ [][Next]_vars
WF == LWF(c, depth)
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
