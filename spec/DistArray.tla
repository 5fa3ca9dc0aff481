------------------------------ MODULE DistArray ------------------------------
(***************************************************************************)
(* Abstract state machine of distributed arrays (DistributedNDVecArray).   *)
(*                                                                         *)
(* obj  : the live array objects.  obj[a] = [up, dir, ch]                  *)
(* disk : what is persistently stored, disk[d] is the content of directory *)
(*        d as of the last flush of the array living there (or of the last *)
(*        operation that itself leaves everything on disk).                *)
(*                                                                         *)
(* Every public operation of the implementation is one action; operations  *)
(* returning a value come as operators giving the value they must return.  *)
(***************************************************************************)
EXTENDS ArrayMath

CONSTANTS Ids,           \* names of array objects
          NoDir          \* the directory of an object that is not there
VARIABLES obj, disk
dvars == <<obj, disk>>

Down == [up |-> FALSE, dir |-> NoDir, ch |-> <<>>]
DInit == /\ obj = [a \in Ids |-> Down]
         /\ disk = [d \in {} |-> <<>>]

Up(a) == a \in Ids /\ obj[a].up
Ch(a) == obj[a].ch
SetCh(a, c) == obj' = [obj EXCEPT ![a].ch = c]
SetDisk(d, c) == disk' = [x \in DOMAIN disk \cup {d} |-> IF x = d THEN c ELSE disk[x]]
DropDisk(d) == disk' = [x \in DOMAIN disk \ {d} |-> disk[x]]
OwnedDirs == { obj[a].dir : a \in { b \in Ids : obj[b].up } }

\* construct an array object on directory d (new, or holding an array already)
Open(a, d) ==
  /\ a \in Ids /\ ~obj[a].up /\ d \notin OwnedDirs
  /\ obj' = [obj EXCEPT ![a] = [up |-> TRUE, dir |-> d, ch |-> IF d \in DOMAIN disk THEN disk[d] ELSE <<>>]]
  /\ SetDisk(d, IF d \in DOMAIN disk THEN disk[d] ELSE <<>>)

\* register a chunk of values v (row-major, margin included)
NewChunk(s, e, ov, opt, v) ==
  [s |-> s, e |-> e, ov |-> ov, null |-> IF opt = 1 /\ AllZero(v) THEN 1 ELSE 0, d |-> v]
Register(a, s, e, ov, opt, v) ==
  /\ Up(a) /\ ChunkWF(NewChunk(s, e, ov, opt, v))
  /\ \A k \in DOMAIN Ch(a) : ~BoxesMeet(Ch(a)[k].s, Ch(a)[k].e, s, e)
  /\ SetCh(a, Append(Ch(a), NewChunk(s, e, ov, opt, v)))
  /\ UNCHANGED disk

\* extend the chunk holding the element before s by a slice
Target(a, ax, s) == Locate(Ch(a), [s EXCEPT ![ax] = @ - 1])
AppendFits(a, ax, s, sh) ==
  LET k == Target(a, ax, s) IN
  /\ s[ax] > 0 /\ k # 0
  /\ Ch(a)[k].null = 0
  /\ FitsChunk(Ch(a)[k], ax, sh)
AppendOk(a, ax, s, sh, v) ==
  /\ Up(a) /\ AppendFits(a, ax, s, sh)
  /\ LET k == Target(a, ax, s) IN
       SetCh(a, [Ch(a) EXCEPT ![k] = Concat(@, ax, sh, v)])
  /\ UNCHANGED disk
AppendRejected(a) == Up(a) /\ UNCHANGED dvars

ReadVal(a, x) == Cell(Ch(a), x)
FillVal(a, s, e, o, ash, bg) ==
  [k \in 1..Prod(ash) |->
     LET y == UnFlat(ash, k - 1)
         x == VAdd(VSub(y, o), s)
     IN IF InBox(s, e, x) THEN CellOr(Ch(a), x, bg) ELSE bg]
ShapeVal(a, n) == Shape(Ch(a), n)

Flush(a) == Up(a) /\ SetDisk(obj[a].dir, Ch(a)) /\ UNCHANGED obj
Close(a) == Up(a) /\ SetDisk(obj[a].dir, Ch(a)) /\ obj' = [obj EXCEPT ![a] = Down]
\* the process dies: the object is gone, what had been flushed stays.  The implementation takes
\* the image of the directory at this moment to directory d, where it is opened again.
CrashReopen(a, d) ==
  /\ Up(a) /\ d \notin OwnedDirs
  /\ obj' = [obj EXCEPT ![a] = [up |-> TRUE, dir |-> d, ch |-> disk[obj[a].dir]]]
  /\ disk' = [x \in (DOMAIN disk \cup {d}) \ {obj[a].dir} |-> IF x = d THEN disk[obj[a].dir] ELSE disk[x]]

Move(a, d) ==
  /\ Up(a) /\ d \notin OwnedDirs /\ d \notin DOMAIN disk
  /\ obj' = [obj EXCEPT ![a].dir = d]
  /\ disk' = [x \in (DOMAIN disk \cup {d}) \ {obj[a].dir} |-> IF x = d THEN Ch(a) ELSE disk[x]]

Import(a, d, move) ==
  /\ Up(a) /\ d \in DOMAIN disk /\ d \notin OwnedDirs
  /\ SetCh(a, Ch(a) \o disk[d])
  /\ IF move = 1 THEN DropDisk(d) ELSE UNCHANGED disk

RebuildAll(a, csh, ov, opt, kind) ==
  /\ Up(a) /\ Contiguous(Ch(a))
  /\ LET B(x) == Bound(Ch(a), kind, x)
         n == Len(csh)
         new == Rebuild(Ch(a), VConst(n, 0), BBoxEnd(Ch(a)), VConst(n, 0), csh, ov, opt, B)
     IN /\ BBoxStart(Ch(a)) = VConst(n, 0)
        /\ SetCh(a, new)
        /\ SetDisk(obj[a].dir, new)
RebuildPart(a, s, e, o, csh, d, ov, opt, kind) ==
  /\ Up(a) /\ Contiguous(Ch(a)) /\ d \notin OwnedDirs
  /\ LET B(x) == Bound(Ch(a), kind, x)
         old == IF d \in DOMAIN disk THEN disk[d] ELSE <<>>
     IN SetDisk(d, old \o Rebuild(Ch(a), s, e, o, csh, ov, opt, B))
  /\ UNCHANGED obj

SwapAxes(a, i, j) == Up(a) /\ SetCh(a, SwapContent(Ch(a), i, j)) /\ UNCHANGED disk

-----------------------------------------------------------------------------
AllWF == /\ \A a \in Ids : ContentWF(Ch(a))
         /\ \A d \in DOMAIN disk : ContentWF(disk[d])
ShapeExact(n) == \A a \in Ids : Shape(Ch(a), n) = ShapeDef(Ch(a), n)
=============================================================================
