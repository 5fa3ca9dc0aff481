------------------------------ MODULE TraceGreen ------------------------------
(***************************************************************************)
(* Accepts a recorded execution iff Green's functions, made from arrays in *)
(* any chunking or reopened from disk any number of times, return exactly  *)
(* what GreensFunction prescribes for their field, and two of them with    *)
(* the same field return the same for any track.                           *)
(***************************************************************************)
EXTENDS GreensFunction, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES gfs,     \* number -> field and grid
          alive,   \* pairs <<number, 0: as made / 1: opened from disk>>
          seen,    \* results by key
          raw,     \* coordinates as given, bit by bit
          l
vars == <<gfs, alive, seen, raw, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Have(id, which) == << id, which >> \in alive

Init == gfs = << >> /\ alive = {} /\ seen = << >> /\ raw = << >> /\ l = 1
Reset == Is("Reset") /\ gfs' = << >> /\ alive' = {} /\ seen' = << >> /\ raw' = << >>
Make == /\ Is("GMake") /\ ev.r = 1
        /\ gfs' = Put(gfs, ev.id, [N |-> ev.N, st |-> ev.st, dt |-> ev.dt, co |-> ev.co, m |-> ev.m, zb |-> ev.zb, zs |-> ev.zs, ze |-> ev.ze, bd |-> ev.bd])
        /\ alive' = alive \cup {<<ev.id, 0>>} /\ UNCHANGED <<seen, raw>>
Open == Is("GOpen") /\ ev.r = 1 /\ ev.id \in DOMAIN gfs /\ alive' = alive \cup {<<ev.id, 1>>} /\ UNCHANGED <<gfs, seen, raw>>
Close == Is("GClose") /\ ev.r = 1 /\ alive' = alive \ {<<ev.id, ev.which>>} /\ UNCHANGED <<gfs, seen, raw>>
Look == l <= Len(Trace) /\ ev.op \in {"GMeta", "GSig", "GAcc", "GFill", "GCause", "GFine"} /\ Have(ev.id, ev.which)
Meta == Look /\ Is("GMeta") /\ MetaOk(gfs[ev.id], ev) /\ UNCHANGED <<gfs, alive, seen, raw>>
Sig == Look /\ Is("GSig") /\ SegmentOk(gfs[ev.id], ev) /\ UNCHANGED <<gfs, alive, seen, raw>>
Acc == Look /\ Is("GAcc") /\ PointOk(gfs[ev.id], ev) /\ UNCHANGED <<gfs, alive, seen, raw>>
Fill == Look /\ Is("GFill") /\ GridOk(gfs[ev.id], ev) /\ UNCHANGED <<gfs, alive, seen, raw>>
Cause == Look /\ Is("GCause") /\ CauseOk(ev) /\ UNCHANGED <<gfs, alive, seen, raw>>
Fine == Look /\ Is("GFine") /\ FineOk(gfs[ev.id], ev) /\ UNCHANGED <<gfs, alive, seen, raw>>
Raw == Is("GRaw") /\ ev.r = 1 /\ raw' = Put(raw, ev.id, << ev.s0, ev.e0 >>) /\ UNCHANGED <<gfs, alive, seen>>
RawGet == Is("GRawGet") /\ ev.id \in DOMAIN raw /\ << ev.s, ev.e >> = raw[ev.id] /\ UNCHANGED <<gfs, alive, seen, raw>>
\* the same question (key) to any object with the same field: the same answer, up to rounding (tol)
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Abs(a[k] - b[k]) <= ev.tol
Diff == /\ Is("GDiff") /\ Have(ev.id, ev.which)
        /\ Len(ev.a) = ev.len
        /\ ev.key \in DOMAIN seen => Same(seen[ev.key], ev.a)
        /\ ev.exc = 0
        /\ seen' = IF ev.key \in DOMAIN seen THEN seen ELSE Put(seen, ev.key, ev.a)
        /\ UNCHANGED <<gfs, alive, raw>>
\* a signal computed in pieces (key -> key of the signal it must equal)
Next == Reset \/ Make \/ Open \/ Close \/ Meta \/ Sig \/ Acc \/ Fill \/ Diff \/ Cause \/ Fine \/ Raw \/ RawGet
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
