------------------------------ MODULE TracePool ------------------------------
(* Accepts a recorded execution of MemoryPool iff it is a behaviour of Pool. *)
EXTENDS Pool, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES slot, init0, peak, l
vars == <<slot, init0, peak, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1
Same == UNCHANGED <<slot, init0, peak>>
Max(a, b) == IF a > b THEN a ELSE b

Init == slot = PEmpty /\ init0 = 0 /\ peak = 0 /\ l = 1
Reset == Is("Reset") /\ slot' = PEmpty /\ init0' = 0 /\ peak' = 0
New == Is("PNew") /\ ev.r = 1 /\ slot' = PEmpty /\ init0' = ev.init /\ peak' = ev.init
\* released slots are used again: the slots in use never need more room than twice what was in use at most
Alloc == /\ Is("PAlloc") /\ PCanTake(slot, ev.s)
         /\ slot' = PTake(slot, ev.s, ev.v)
         /\ peak' = Max(peak, 2 * Cardinality(DOMAIN slot'))
         /\ ev.s < peak'
         /\ UNCHANGED init0
Free == Is("PFree") /\ ev.r = 1 /\ ev.s \in DOMAIN slot /\ slot' = PDrop(slot, ev.s) /\ UNCHANGED <<init0, peak>>
Get == Is("PGet") /\ ev.s \in DOMAIN slot /\ ev.v = slot[ev.s] /\ Same
Seat == Is("PSeat") /\ ev.v = ev.s /\ Same
Set == Is("PSet") /\ ev.r = 1 /\ ev.s \in DOMAIN slot /\ slot' = PTake(slot, ev.s, ev.v) /\ UNCHANGED <<init0, peak>>
List == Is("PList") /\ PLists(slot, ev.v) /\ Same
Apply == Is("PApply") /\ PLists(slot, ev.v) /\ Same
PReset == Is("PReset") /\ ev.r = 1 /\ slot' = PEmpty /\ peak' = init0 /\ UNCHANGED init0
Grow == Is("PGrow") /\ ev.r = 1 /\ peak' = 2 * peak /\ UNCHANGED <<slot, init0>>
Next == Reset \/ New \/ Alloc \/ Free \/ Get \/ Seat \/ Set \/ List \/ Apply \/ PReset \/ Grow
Spec == Init /\ [][Next]_vars
WF == peak >= 0
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
