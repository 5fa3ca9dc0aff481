------------------------------ MODULE TraceDist ------------------------------
(***************************************************************************)
(* Accepts a recorded execution of DistributedNDVecArray iff it is a       *)
(* behaviour of DistArray.  Every line of the trace is one public call     *)
(* with its arguments and everything it returned; Reset starts the next    *)
(* recorded history.                                                       *)
(***************************************************************************)
EXTENDS DistArray, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<obj, disk, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1

TInit == DInit /\ l = 1

Reset == Is("Reset") /\ obj' = [a \in Ids |-> Down] /\ disk' = [d \in {} |-> <<>>]

Ok == ev.r = 1
TNew == Is("New") /\ Ok /\ Open(ev.a, ev.dir)
TReg == Is("Reg") /\ Ok /\ Register(ev.a, ev.s, ev.e, ev.ov, ev.opt, ev.d)
TApp == /\ Is("App")
        /\ IF AppendFits(ev.a, ev.ax, ev.s, ev.sh)
           THEN \/ ev.r = 1 /\ AppendOk(ev.a, ev.ax, ev.s, ev.sh, ev.d)
                \/ ev.r = 0 /\ ev.must = 0 /\ AppendRejected(ev.a)     \* not representable on disk
           ELSE ev.r = 0 /\ AppendRejected(ev.a)
TGet == Is("Get") /\ Up(ev.a) /\ ev.v = ReadVal(ev.a, ev.x) /\ UNCHANGED dvars
TFill == Is("Fill") /\ Up(ev.a) /\ ev.v = FillVal(ev.a, ev.s, ev.e, ev.o, ev.as, ev.bg) /\ UNCHANGED dvars
TShape == Is("Shape") /\ Up(ev.a) /\ ev.v = ShapeVal(ev.a, Len(ev.v)) /\ UNCHANGED dvars
\* the chunk-aware loop reports every index of the array exactly once, with its value
TLoop == /\ Is("Loop") /\ Up(ev.a)
         /\ LET sh == ShapeVal(ev.a, ev.n0)
                want == BoxSet(VConst(ev.n0, 0), sh)
            IN /\ Len(ev.xs) = Cardinality(want)
               /\ { ev.xs[k] : k \in DOMAIN ev.xs } = want
               /\ \A k \in DOMAIN ev.xs : ev.vs[k] = ReadVal(ev.a, ev.xs[k])
         /\ UNCHANGED dvars
TFlush == Is("Flush") /\ Ok /\ Flush(ev.a)
TClose == Is("Close") /\ Ok /\ Close(ev.a)
TCrash == Is("Crash") /\ Ok /\ CrashReopen(ev.a, ev.dir)
TMove == Is("Move") /\ Ok /\ Move(ev.a, ev.dir)
TImport == Is("Import") /\ Ok /\ Import(ev.a, ev.dir, ev.move)

\* the evaluator was asked exactly for the margin elements outside of the array
CallsOk(ch, s, e, csh, ov) ==
  ev.ev \in {"cyl"} \/ { ev.calls[k] : k \in DOMAIN ev.calls } = RebuildCalls(ch, s, e, csh, ov)
Ovl == IF ev.ev = "none" THEN 0 ELSE ev.ov
Kind == IF ev.ev = "cyl" THEN "cyl" ELSE "gen"
\* lookups by index are independent of the order of the chunks, but the recorded order is not specified
TRebuild == /\ Is("Rebuild") /\ Ok /\ ev.tmpgone = 1
            /\ RebuildAll(ev.a, ev.csh, Ovl, ev.opt, Kind)
            /\ CallsOk(Ch(ev.a), VConst(Len(ev.csh), 0), BBoxEnd(Ch(ev.a)), ev.csh, Ovl)
TPart == /\ Is("Part") /\ Ok
         /\ RebuildPart(ev.a, ev.s, ev.e, ev.o, ev.csh, ev.dir, Ovl, ev.opt, Kind)
         /\ CallsOk(Ch(ev.a), ev.s, ev.e, ev.csh, Ovl)
TSwap == Is("Swap") /\ Ok /\ SwapAxes(ev.a, ev.i, ev.j)

\* what is on disk, chunk by chunk
DumpRec(c) == [s |-> c.s, e |-> c.e, ov |-> c.ov, null |-> c.null, d |-> c.d, sh |-> ExtShape(c)]
TDump == /\ Is("Dump") /\ ev.dir \in DOMAIN disk
         /\ Len(ev.ch) = Len(disk[ev.dir])
         /\ { ev.ch[k] : k \in DOMAIN ev.ch } = { DumpRec(disk[ev.dir][k]) : k \in DOMAIN disk[ev.dir] }
         /\ UNCHANGED dvars
TFiles == /\ Is("Files") /\ ev.dir \in DOMAIN disk
          /\ ev.n = Cardinality({ k \in DOMAIN disk[ev.dir] : disk[ev.dir][k].null = 0 })
          /\ UNCHANGED dvars
TGone == Is("Gone") /\ ev.gone = (IF ev.dir \in DOMAIN disk THEN 0 ELSE 1) /\ UNCHANGED dvars

TNext == \/ Reset \/ TNew \/ TReg \/ TApp \/ TGet \/ TFill \/ TShape \/ TLoop \/ TFlush \/ TClose \/ TCrash
         \/ TMove \/ TImport \/ TRebuild \/ TPart \/ TSwap \/ TDump \/ TFiles \/ TGone

TSpec == TInit /\ [][TNext]_tvars

Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
