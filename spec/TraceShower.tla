---------------------------- MODULE TraceShower ----------------------------
(***************************************************************************)
(* Accepts recorded histories of shower libraries and showers iff every    *)
(* shower is a track that Shower allows for the library loaded last.       *)
(***************************************************************************)
EXTENDS Shower, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, lib
vars == <<l, lib>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1

Init == l = 1 /\ lib = << >>
Reset == Is("Reset") /\ lib' = << >>
Load == Is("CLib") /\ ev.r = 1 /\ lib' = ev.lib
Make == Is("CShower") /\ ShowerOk(lib, ev.had, ev.en, ev.pick, ev.s, ev.dir, ev.k, ev) = TRUE /\ UNCHANGED lib
Next == Reset \/ Load \/ Make
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
