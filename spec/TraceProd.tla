------------------------------ MODULE TraceProd ------------------------------
(***************************************************************************)
(* Accepts a recorded sequence of productions iff every one of them is     *)
(* refused or accepted as Production says, an accepted one holds what it   *)
(* must, leaves no temporary files, and productions that differ only in    *)
(* how the work was shared hold the very same values.                      *)
(***************************************************************************)
EXTENDS Production, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES seen, l
vars == <<seen, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Init == seen = << >> /\ l = 1
Reset == Is("Reset") /\ seen' = << >>
Refused == /\ Is("MGen") /\ ~Acceptable(ev) /\ ev.r = 0
           /\ ev.files = (IF ev.pre = 2 THEN 1 ELSE 0)
           /\ UNCHANGED seen
Produced == /\ Is("MGen")
            /\ \E g \in { ev } :
                 /\ Acceptable(g) = TRUE /\ g.r = 1 /\ g.left = 0
                 /\ RegionOk(g, g) = TRUE
                 /\ \E core \in { TLCEval(Core(g)) } :
                      /\ ResultOk(g, g, core) = TRUE
                      /\ g.key \in DOMAIN seen => seen[g.key] = core
                      /\ seen' = IF g.key \in DOMAIN seen THEN seen ELSE Put(seen, g.key, core)
Next == Reset \/ Refused \/ Produced
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
