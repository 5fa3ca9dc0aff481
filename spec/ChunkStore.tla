------------------------------ MODULE ChunkStore -----------------------------
(***************************************************************************)
(* Implementation-shaped model of ChunkLibrary / ChunkIndex / ChunkCache:  *)
(* an index in memory and on disk, chunk files, and an LRU cache of chunks *)
(* whose entries carry the operation to be performed when they leave the   *)
(* cache (N nothing, S serialise, A append to the file).  A chunk lives at *)
(* a position and holds a sequence of slices; the slices of a chunk differ. *)
(*                                                                         *)
(* abs / pabs are the abstract contents (now / at the last flush).  The    *)
(* invariants say that the abstraction function of the implementation      *)
(* state is abs, and that at every state - i.e. wherever the process may   *)
(* die - the disk alone determines pabs.                                   *)
(*                                                                         *)
(* hist records the operations; it is hidden by the VIEW.  With the action *)
(* constraint Emit, TLC prints one history per transition of the state     *)
(* graph; the conformance driver replays each of them on the real code.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pos, MaxSlices, Depths, MaxOps, WithSwap, WithImport, WithNull, EmitOn

VARIABLES depth,   \* requested cache depth of the open object
          idx,     \* in-memory index:  pos -> [id, f, len, null]
          didx,    \* index file
          files,   \* file -> sequence of slices
          cache,   \* sequence (oldest first) of [id, f, st, d, len, null]
          nid, nf, \* next chunk id, next file name
          orient,  \* parity of axis swaps performed (abstract: applies to all chunks)
          abs, pabs, swapped, hist
svars == <<depth, idx, didx, files, cache, nid, nf, abs, pabs, orient, swapped>>
vars == <<svars, hist>>
hidden == <<depth, idx, didx, files, cache, nid, nf, abs, pabs, orient, swapped>>

\* the value of the slice written next at position p
Tok(p) == 10 * p + (IF p \in DOMAIN abs THEN Len(abs[p]) + 1 ELSE 1)
Empty == [x \in {} |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Log(op) == hist' = Append(hist, op)

Init == /\ depth \in Depths
        /\ idx = Empty /\ didx = Empty /\ files = Empty /\ cache = <<>>
        /\ nid = 0 /\ nf = 1 /\ abs = Empty /\ pabs = Empty /\ orient = 0 /\ swapped = FALSE
        /\ hist = << [op |-> "new", p |-> depth] >>

Cap == IF depth = 0 THEN 1 ELSE depth

-----------------------------------------------------------------------------
\* cache mechanics on a pair (cache, files)

InCache(c, id) == \E k \in DOMAIN c : c[k].id = id
At(c, id) == CHOOSE k \in DOMAIN c : c[k].id = id
Without(c, id) == SelectSeq(c, LAMBDA x : x.id # id)
Touch(c, id) == Append(Without(c, id), c[At(c, id)])
\* what descoping an entry does to the files
Descope(e, fs) == CASE e.null = 1 -> fs
                    [] e.st = "S" -> Put(fs, e.f, e.d)
                    [] e.st = "A" -> Put(fs, e.f, fs[e.f] \o e.d)
                    [] OTHER -> fs
\* make room, then insert as newest
Insert(cf, e) ==
  LET c == cf[1]
      full == Len(c) >= Cap
      c1 == IF full THEN Tail(c) ELSE c
      f1 == IF full THEN Descope(Head(c), cf[2]) ELSE cf[2]
  IN << Append(c1, e), f1 >>
RECURSIVE FlushAll(_, _)
FlushAll(c, fs) == IF c = <<>> THEN fs ELSE FlushAll(Tail(c), Descope(Head(c), fs))
Write(cf) == IF depth = 0 THEN << <<>>, FlushAll(cf[1], cf[2]) >> ELSE cf
Sync(e, fs) == [e EXCEPT !.st = "N", !.d = fs[e.f] \o e.d]

\* retrieving the chunk with metadata m: resulting (cache, files)
Retrieve(m, cf) ==
  LET c == cf[1] fs == cf[2] IN
  IF InCache(c, m.id)
  THEN LET c1 == Touch(c, m.id)
           e == c1[Len(c1)]
       IN IF e.st = "A"
          THEN LET fs1 == Put(fs, e.f, fs[e.f] \o e.d)
               IN << [c1 EXCEPT ![Len(c1)] = [e EXCEPT !.st = "N", !.d = fs1[e.f]]], fs1 >>
          ELSE << c1, fs >>
  ELSE LET cf1 == Insert(cf, [id |-> m.id, f |-> m.f, st |-> "N", d |-> <<>>, len |-> m.len, null |-> m.null])
           d == IF m.null = 1 THEN [k \in 1..m.len |-> 0] ELSE cf1[2][m.f]
           n == Len(cf1[1])
       IN << [cf1[1] EXCEPT ![n].d = d], cf1[2] >>

Set(cf) == cache' = cf[1] /\ files' = cf[2]

-----------------------------------------------------------------------------
\* operations

Reg(p, null) ==
  /\ p \notin DOMAIN idx
  /\ LET v == IF null = 1 THEN 0 ELSE Tok(p)
         m == [id |-> nid, f |-> IF null = 1 THEN 0 ELSE nf, len |-> 1, null |-> null]
     IN /\ idx' = Put(idx, p, m)
        /\ Set(Write(Insert(<<cache, files>>, [id |-> m.id, f |-> m.f, st |-> "S", d |-> <<v>>, len |-> 1, null |-> null])))
        /\ abs' = Put(abs, p, <<v>>)
  /\ nid' = nid + 1 /\ nf' = nf + 1
  /\ Log([op |-> IF null = 1 THEN "regz" ELSE "reg", p |-> p])
  /\ UNCHANGED <<depth, didx, pabs, orient, swapped>>

App(p) ==
  /\ p \in DOMAIN idx /\ idx[p].null = 0 /\ Len(abs[p]) < MaxSlices
  /\ LET m == [idx[p] EXCEPT !.len = @ + 1]
         c == cache
         id == idx[p].id
         ins(c0, fs) == Insert(<<c0, fs>>, [id |-> id, f |-> m.f, st |-> "A", d |-> <<Tok(p)>>, len |-> m.len, null |-> 0])
     IN /\ idx' = [idx EXCEPT ![p] = m]
        /\ IF ~InCache(c, id) THEN Set(Write(ins(c, files)))
           ELSE LET c1 == Touch(c, id)
                    e == c1[Len(c1)]
                IN IF e.st = "N" THEN Set(Write(ins(Without(c, id), files)))
                   ELSE Set(Write(<< [c1 EXCEPT ![Len(c1)] = [e EXCEPT !.d = Append(@, Tok(p)), !.len = m.len]], files >>))
  /\ abs' = [abs EXCEPT ![p] = Append(@, Tok(p))]
 
  /\ Log([op |-> "app", p |-> p])
  /\ UNCHANGED <<depth, didx, nid, nf, pabs, orient, swapped>>

Read(p) ==
  /\ p \in DOMAIN idx
  /\ Set(Retrieve(idx[p], <<cache, files>>))
  /\ Log([op |-> "read", p |-> p])
  /\ UNCHANGED <<depth, idx, didx, nid, nf, abs, pabs, orient, swapped>>

Flush ==
  /\ didx' = idx /\ files' = FlushAll(cache, files) /\ cache' = <<>>
  /\ pabs' = abs /\ swapped' = FALSE
  /\ Log([op |-> "flush", p |-> 0])
  /\ UNCHANGED <<depth, idx, nid, nf, abs, orient>>

\* proper shutdown (cache first, then index) and construction on the same directory
Reopen(d) ==
  /\ LET fs == FlushAll(cache, files) IN files' = fs
  /\ didx' = idx /\ cache' = <<>> /\ pabs' = abs /\ depth' = d /\ swapped' = FALSE
  /\ nid' = IF DOMAIN idx = {} THEN 0 ELSE 1 + CHOOSE m \in { idx[p].id : p \in DOMAIN idx } : \A p \in DOMAIN idx : idx[p].id <= m
  /\ Log([op |-> "reopen", p |-> d])
  /\ UNCHANGED <<idx, nf, abs, orient>>

\* the process dies and the directory is opened again.  Chunks extended on disk since the last flush
\* are longer than the index says; such an array is only read from, which the abstraction below allows for.
Crash(d) ==
  /\ ~swapped
  /\ \A p \in DOMAIN didx : didx[p].null = 1 \/ (idx[p].len = didx[p].len)
  /\ idx' = didx /\ cache' = <<>> /\ abs' = pabs /\ depth' = d
  /\ nid' = IF DOMAIN didx = {} THEN 0 ELSE 1 + CHOOSE m \in { didx[p].id : p \in DOMAIN didx } : \A p \in DOMAIN didx : didx[p].id <= m
  /\ Log([op |-> "crash", p |-> d])
  /\ UNCHANGED <<didx, files, nf, pabs, orient, swapped>>

\* exchanging axes rewrites every chunk: retrieve, remove from the cache, register again
RECURSIVE SwapAll(_, _)
SwapAll(ps, cf) ==
  IF ps = <<>> THEN cf
  ELSE LET m == idx[Head(ps)]
           cf1 == Retrieve(m, cf)
           e == cf1[1][At(cf1[1], m.id)]
           cf2 == << Without(cf1[1], m.id), cf1[2] >>
       IN SwapAll(Tail(ps), Write(Insert(cf2, [e EXCEPT !.st = "S"])))
SetToSeq(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Swap ==
  /\ WithSwap /\ DOMAIN idx # {}
  /\ Set(SwapAll(SetToSeq(DOMAIN idx), <<cache, files>>))
  /\ orient' = 1 - orient /\ swapped' = TRUE
  /\ Log([op |-> "swap", p |-> 0])
  /\ UNCHANGED <<depth, idx, didx, nid, nf, abs, pabs>>

\* importing another directory holding one chunk (written earlier) at position p
Imp(p) ==
  /\ WithImport /\ p \notin DOMAIN idx
  /\ idx' = Put(idx, p, [id |-> nid, f |-> nf, len |-> 1, null |-> 0])
  /\ files' = Put(files, nf, <<Tok(p)>>)
  /\ abs' = Put(abs, p, <<Tok(p)>>)
  /\ nid' = nid + 1 /\ nf' = nf + 1
  /\ Log([op |-> "import", p |-> p])
  /\ UNCHANGED <<depth, didx, cache, pabs, orient, swapped>>

Next == /\ Len(hist) <= MaxOps
        /\ \/ \E p \in Pos : Reg(p, 0) \/ (WithNull /\ Reg(p, 1)) \/ App(p) \/ Read(p) \/ Imp(p)
           \/ Flush \/ Swap
           \/ \E d \in Depths : Reopen(d) \/ Crash(d)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* abstraction: what reading the chunk of metadata m would give
Stored(m) ==
  IF m.null = 1 THEN [k \in 1..m.len |-> 0]
  ELSE IF InCache(cache, m.id)
       THEN LET e == cache[At(cache, m.id)]
            IN IF e.st = "A" THEN files[e.f] \o e.d ELSE e.d
       ELSE files[m.f]
Refines == /\ DOMAIN idx = DOMAIN abs
           /\ \A p \in DOMAIN idx : Stored(idx[p]) = abs[p] /\ idx[p].len = Len(abs[p])
\* whenever the process dies, everything flushed is still there
CrashSafe == swapped \/
  /\ DOMAIN didx = DOMAIN pabs
  /\ \A p \in DOMAIN didx : /\ didx[p].len = Len(pabs[p])
                            /\ didx[p].null = 0 => SubSeq(files[didx[p].f], 1, didx[p].len) = pabs[p]
CacheOk == /\ Len(cache) <= Cap
           /\ \A i, j \in DOMAIN cache : i # j => cache[i].id # cache[j].id
           /\ \A i \in DOMAIN cache : cache[i].st # "S" /\ cache[i].null = 0 => cache[i].f \in DOMAIN files
UniqueIds == \A p, q \in DOMAIN idx : p # q => idx[p].id # idx[q].id
Inv == Refines /\ CrashSafe /\ CacheOk /\ UniqueIds

Emit == ~EmitOn \/ PrintT(ToJson([hist |-> hist']))
=============================================================================
