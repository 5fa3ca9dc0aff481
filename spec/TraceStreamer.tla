----------------------------- MODULE TraceStreamer -----------------------------
(***************************************************************************)
(* Accepts a recorded execution iff arrays stored in files read back as    *)
(* what was written, extensions are accepted exactly when the layout can   *)
(* represent them, and the bytes in the files are those of the documented  *)
(* format (Streamer, Wire) - in both directions: files written by the      *)
(* implementation and files made from the specification alone.             *)
(***************************************************************************)
EXTENDS Streamer, Wire, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES cfg,      \* [n: components of a vector, dims]
          files,    \* file number -> sequence of stored arrays (as they are on disk)
          vals,     \* file number -> sequence of [sh, d]: what they should read as
          chs,      \* chunks of the directory: sequence of [s, sh, ov, d, nm]; d = <<>>: data not known yet
          dser,     \* serialization chunk shape of the directory
          l
vars == <<cfg, files, vals, chs, dser, l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1
Dir == <<chs, dser>>
Data == <<files, vals>>
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SetLast(q, v) == [q EXCEPT ![Len(q)] = v]

Init == cfg = [n |-> 1, dims |-> 1] /\ files = << >> /\ vals = << >> /\ chs = <<>> /\ dser = <<>> /\ l = 1
Reset == Is("Reset") /\ cfg' = [n |-> 1, dims |-> 1] /\ files' = << >> /\ vals' = << >> /\ chs' = <<>> /\ dser' = <<>>
New == Is("SNew") /\ ev.r = 1 /\ cfg' = [n |-> ev.n, dims |-> ev.dims] /\ UNCHANGED <<Data, Dir>>

Ser == /\ Is("SSer")
       /\ LET d == Group(ev.d, cfg.n) IN
          IF ~WellFormed(ev.ser) THEN ev.r = 0 /\ UNCHANGED Data
          ELSE /\ ev.r = 1
               /\ files' = Put(files, ev.f, Append(At(files, ev.f), Store(ev.sh, ev.ser, ev.m, d)))
               /\ vals' = Put(vals, ev.f, Append(At(vals, ev.f), [sh |-> ev.sh, d |-> d]))
       /\ UNCHANGED <<cfg, Dir>>
App == /\ Is("SApp")
       /\ LET a == Last(files[ev.f])
              v == Last(vals[ev.f])
              d == Group(ev.d, cfg.n)
          IN IF ~Extendable(a, ev.ax, ev.sh) THEN ev.r = 0 /\ UNCHANGED Data
             ELSE /\ ev.r = 1
                  /\ files' = [files EXCEPT ![ev.f] = SetLast(@, Extend(a, ev.ax, ev.sh, ev.m, d))]
                  /\ vals' = [vals EXCEPT ![ev.f] = SetLast(@, [sh |-> [v.sh EXCEPT ![ev.ax] = @ + ev.sh[ev.ax]],
                                                                 d |-> Joined(v.sh, v.d, ev.ax, ev.sh, d)])]
       /\ UNCHANGED <<cfg, Dir>>
Fin == Is("SFin") /\ ev.r = 1 /\ files' = [files EXCEPT ![ev.f] = [@ EXCEPT ![ev.k] = Finalize(@)]] /\ UNCHANGED <<cfg, vals, Dir>>
Read == /\ Is("SRead")
        /\ LET v == At(vals, ev.f) IN
           /\ Len(ev.a) = Len(v)
           /\ \A k \in DOMAIN v : ev.a[k].sh = v[k].sh /\ Len(ev.a[k].d) = cfg.n * Len(v[k].d) /\ Group(ev.a[k].d, cfg.n) = v[k].d
           /\ \A k \in DOMAIN v : Len(v[k].d) > 200 \/ Load(files[ev.f][k], cfg.n) = v[k].d
           /\ ev.end = Len(FileWords(At(files, ev.f)))
        /\ UNCHANGED <<cfg, Data, Dir>>
Words == Is("SWords") /\ ev.w = FileWords(At(files, ev.f)) /\ UNCHANGED <<cfg, Data, Dir>>
\* a file made from the format alone
PutFile == /\ Is("SPut") /\ ev.r = 1 /\ ev.w = FileWords(ev.a) /\ \A k \in DOMAIN ev.a : Consistent(ev.a[k], cfg.n)
           /\ files' = Put(files, ev.f, ev.a)
           /\ vals' = Put(vals, ev.f, [k \in DOMAIN ev.a |-> [sh |-> ev.a[k].sh, d |-> Load(ev.a[k], cfg.n)]])
           /\ UNCHANGED <<cfg, Dir>>

Enc == Is("XEnc") /\ ev.b = Bytes(ev.v) /\ UNCHANGED <<cfg, Data, Dir>>
Dec == Is("XDec") /\ SameValue(ev.v, ev.fv) /\ ev.b = Bytes(ev.fv) \o ev.tail /\ ev.o = Toks(ev.v) /\ ev.rest = ev.tail /\ UNCHANGED <<cfg, Data, Dir>>

-----------------------------------------------------------------------------
\* directories of chunks
ExtSh(c) == VAddS(c.sh, 2 * c.ov)
ZeroVec == [i \in 1..cfg.n |-> 0]
NullData(d) == \A k \in DOMAIN d : NullVec(d[k])
DNew == Is("DNew") /\ ev.r = 1 /\ dser' = ev.ser /\ UNCHANGED <<cfg, Data, chs>>
DReg == Is("DReg") /\ ev.r = 1 /\ chs' = Append(chs, [s |-> ev.s, sh |-> ev.sh, ov |-> ev.ov, d |-> Group(ev.d, cfg.n), nm |-> <<>>])
        /\ UNCHANGED <<cfg, Data, dser>>
DApp == /\ Is("DApp") /\ ev.r = 1
        /\ \E i \in DOMAIN chs :
             /\ chs[i].s = ev.s /\ chs[i].ov = 0
             /\ chs' = [chs EXCEPT ![i].sh[ev.ax] = @ + ev.sh[ev.ax], ![i].d = Joined(chs[i].sh, @, ev.ax, ev.sh, Group(ev.d, cfg.n))]
        /\ UNCHANGED <<cfg, Data, dser>>
DFlush == Is("DFlush") /\ ev.r = 1 /\ UNCHANGED <<cfg, Data, Dir>>
DClose == Is("DClose") /\ ev.r = 1 /\ UNCHANGED <<cfg, Data, Dir>>

\* reading the index file: entries [ty, nm, id, s, sh, ov] from position p of b; <<>> if malformed
W4(b, p) == IF b[p] >= 128 THEN -1 ELSE ((b[p] * 256 + b[p + 1]) * 256 + b[p + 2]) * 256 + b[p + 3]
N8(b, p) == IF b[p] = 0 /\ b[p + 1] = 0 /\ b[p + 2] = 0 /\ b[p + 3] = 0 /\ b[p + 4] < 128 THEN W4(b, p + 4) ELSE -1
RECURSIVE Entries(_, _, _)
Entries(b, p, n) ==
  IF n = 0 THEN IF p = Len(b) + 1 THEN <<>> ELSE << [ty |-> -1] >>
  ELSE IF p + 15 > Len(b) THEN << [ty |-> -1] >>
  ELSE LET k == (LET z == N8(b, p + 8) IN IF z > Len(b) THEN -1 ELSE z)
           q == p + 16 + k
           D == cfg.dims
           last == q + 4 + 16 * D + 7
       IN IF k < 0 \/ last > Len(b) THEN << [ty |-> -1] >>
          ELSE << [ty |-> N8(b, p), nm |-> SubSeq(b, p + 16, q - 1), id |-> W4(b, q),
                   s |-> [i \in 1..D |-> N8(b, q + 4 + 8 * (i - 1))],
                   sh |-> [i \in 1..D |-> N8(b, q + 4 + 8 * D + 8 * (i - 1))],
                   ov |-> N8(b, q + 4 + 16 * D)] >>
               \o Entries(b, last + 1, n - 1)
Index(b) == IF Len(b) < 8 THEN << [ty |-> -1] >> ELSE Entries(b, 9, N8(b, 1))
IndexBytes(es) == Bytes([k |-> "v", x |-> [i \in DOMAIN es |-> [k |-> "a", x |-> <<
   [k |-> "w", w |-> <<0, es[i].ty>>], [k |-> "s", b |-> es[i].nm], [k |-> "w", w |-> <<es[i].id>>],
   [k |-> "w", w |-> CatAll([j \in DOMAIN es[i].s |-> <<0, es[i].s[j]>>])],
   [k |-> "w", w |-> CatAll([j \in DOMAIN es[i].sh |-> <<0, es[i].sh[j]>>])],
   [k |-> "w", w |-> <<0, es[i].ov>>] >>]]])

\* reading a file of one array
SizeW(h, w) == IF h = -1 /\ w = -1 THEN Inf ELSE IF h = 0 /\ w >= 0 THEN w ELSE -9
RECURSIVE SegsFrom(_, _, _)
SegsFrom(ws, p, n) ==
  IF n = 0 THEN IF p = Len(ws) + 1 THEN <<>> ELSE << [m |-> -1, w |-> <<>>] >>
  ELSE IF p + 3 > Len(ws) THEN << [m |-> -1, w |-> <<>>] >>
  ELSE LET k == (LET z == SizeW(ws[p + 2], ws[p + 3]) IN IF z > Len(ws) THEN -1 ELSE z) IN
       IF k < 0 \/ p + 3 + k > Len(ws) THEN << [m |-> -1, w |-> <<>>] >>
       ELSE << [m |-> SizeW(ws[p], ws[p + 1]), w |-> SubSeq(ws, p + 4, p + 3 + k)] >> \o SegsFrom(ws, p + 4 + k, n - 1)
OneArray(ws) ==
  LET D == cfg.dims
      ser == [i \in 1..D |-> SizeW(ws[2 * i - 1], ws[2 * i])]
      sh == [i \in 1..D |-> SizeW(ws[2 * D + 2 * i - 1], ws[2 * D + 2 * i])]
  IN [ser |-> ser, sh |-> sh, fin |-> SizeW(ws[4 * D + 1], ws[4 * D + 2]), segs |-> SegsFrom(ws, 4 * D + 3, Len(SerBoxes(sh, ser)))]
HoldsArray(ws, sh, d) ==
  /\ Len(ws) > 4 * cfg.dims + 2
  /\ \A i \in 1..cfg.dims : SizeW(ws[2 * i - 1], ws[2 * i]) = dser[i]                        \* laid out as asked
  /\ \A i \in 1..cfg.dims : SizeW(ws[2 * cfg.dims + 2 * i - 1], ws[2 * cfg.dims + 2 * i]) = sh[i]
  /\ LET a == OneArray(ws) IN
     /\ Consistent(a, cfg.n)
     /\ a.fin \in {0, 1}
     /\ Load(a, cfg.n) = d
Suffix == << 46, 99, 104, 117, 110, 107 >>      \* ".chunk"

\* what the directory holds is what was registered: entries of the index and files belong together one to one
ScanOk(es) ==
  LET hist == TLCEval([f \in DOMAIN ev.files |-> ev.files[f].n])
      Home(c) == { i \in DOMAIN es : es[i].s = chs[c].s }
  IN /\ Len(es) = Len(chs)
     /\ \A i \in DOMAIN es : es[i].ty \in {0, 1}
     /\ Cardinality({ es[i].id : i \in DOMAIN es }) = Len(es)
     /\ \A c \in DOMAIN chs : \E i \in Home(c) :
          /\ es[i].sh = chs[c].sh /\ es[i].ov = chs[c].ov
          /\ IF es[i].ty = 1 THEN es[i].nm = <<>> /\ NullData(chs[c].d)
             ELSE \E f \in DOMAIN ev.files : hist[f] = es[i].nm \o Suffix /\ HoldsArray(ev.files[f].w, ExtSh(chs[c]), chs[c].d)
     /\ { hist[f] : f \in DOMAIN hist } \subseteq { es[i].nm \o Suffix : i \in { j \in DOMAIN es : es[j].ty = 0 } }
     /\ Cardinality({ es[i].nm : i \in { j \in DOMAIN es : es[j].ty = 0 } }) = Cardinality({ j \in DOMAIN es : es[j].ty = 0 })
DScan == /\ Is("DScan")
         /\ \E es \in {TLCEval(Index(ev.idx))} : ScanOk(es) = TRUE
         /\ UNCHANGED <<cfg, Data, Dir>>
DPutIdx == /\ Is("DPutIdx") /\ ev.r = 1 /\ ev.b = IndexBytes(ev.es) /\ Index(ev.b) = ev.es
           /\ chs' = [i \in DOMAIN ev.es |-> [s |-> ev.es[i].s, sh |-> ev.es[i].sh, ov |-> ev.es[i].ov, nm |-> ev.es[i].nm,
                        d |-> IF ev.es[i].ty = 1 THEN [k \in 1..Prod(VAddS(ev.es[i].sh, 2 * ev.es[i].ov)) |-> ZeroVec] ELSE <<>>]]
           /\ UNCHANGED <<cfg, Data, dser>>
DPutChunk == /\ Is("DPutChunk") /\ ev.r = 1 /\ ev.w = FileWords(<<ev.a>>)
             /\ chs' = [i \in DOMAIN chs |-> IF chs[i].nm = ev.nm THEN [chs[i] EXCEPT !.d = Load(ev.a, cfg.n)] ELSE chs[i]]
             /\ UNCHANGED <<cfg, Data, dser>>
DGet == /\ Is("DGet") /\ ev.a.sh = VSub(ev.e, ev.s)
        /\ LET q == BoxSeq(ev.s, ev.e)
               g == Group(ev.a.d, cfg.n)
               Home(x) == CHOOSE i \in DOMAIN chs : InBox(chs[i].s, VAdd(chs[i].s, chs[i].sh), x)
           IN \A k \in DOMAIN q : LET c == chs[Home(q[k])] IN
                g[k] = c.d[Flat(ExtSh(c), VAddS(VSub(q[k], c.s), c.ov)) + 1]
        /\ UNCHANGED <<cfg, Data, Dir>>

Next == Reset \/ New \/ Ser \/ App \/ Fin \/ Read \/ Words \/ PutFile \/ Enc \/ Dec
        \/ DNew \/ DReg \/ DApp \/ DFlush \/ DClose \/ DScan \/ DPutIdx \/ DPutChunk \/ DGet
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
