---------------------------- MODULE MCDistArray ------------------------------
(***************************************************************************)
(* Exhaustive small-constant instance of DistArray: two array objects over *)
(* 2-d boxes inside an W x H grid.  Action properties state what a user    *)
(* relies on independently of how the actions compute their result.        *)
(***************************************************************************)
EXTENDS DistArray, TLC
CONSTANTS W, H, MaxChunks, Dirs, MaxTotal, ChunkShapes, Overlaps
N == 2
Sym == Permutations(Ids) \cup Permutations(Dirs)
Grid == BoxSet(<<0, 0>>, <<W, H>>)
Boxes == { b \in Grid \X { VAddS(x, 1) : x \in Grid } : VLess(b[1], b[2]) }
\* two patterns of data per box: all zero, or distinct values depending on the position
Data(s, e, ov, p) == [k \in 1..Prod([i \in 1..N |-> e[i] - s[i] + 2 * ov]) |-> IF p = 0 THEN 0 ELSE p * 100 + s[1] * 20 + s[2] * 5 + k]

RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET a == CHOOSE x \in S : TRUE IN Len(Ch(a)) + SumLen(S \ {a})
Total == SumLen(Ids)
MCTiny == { <<1, 1>>, <<2, 1>>, <<1, 3>>, <<3, 2>> }
MCSmall == { <<1, 2>>, <<2, 1>> }
MCZero == {0}
MCZeroOne == {0, 1}


Next ==
  \/ \E a \in Ids, d \in Dirs : Open(a, d)
  \/ \E a \in Ids, b \in Boxes, opt \in {0, 1}, p \in {0, 1} :
        /\ Len(Ch(a)) < MaxChunks /\ Total < MaxTotal
        /\ Register(a, b[1], b[2], 0, opt, Data(b[1], b[2], 0, p))
  \/ \E a \in Ids, ax \in 1..N, s \in Grid :
        LET k == Target(a, ax, s) IN
        /\ Up(a) /\ s[ax] > 0 /\ k # 0
        /\ LET c == Ch(a)[k]
               sh == [VSub(c.e, c.s) EXCEPT ![ax] = 1]
               s1 == [c.s EXCEPT ![ax] = c.e[ax]]
               e1 == VAdd(s1, sh)
           IN /\ s = s1
              /\ VLeq(e1, <<W, H>>) /\ c.ov = 0
              /\ \A j \in DOMAIN Ch(a) : ~BoxesMeet(Ch(a)[j].s, Ch(a)[j].e, s1, e1)
              /\ AppendOk(a, ax, s, sh, Data(s1, e1, 0, 3))
  \/ \E a \in Ids : Flush(a) \/ Close(a)
  \/ \E a \in Ids, d \in Dirs : d \notin DOMAIN disk /\ (CrashReopen(a, d) \/ Move(a, d))
  \/ \E a \in Ids, d \in Dirs, m \in {0, 1} :
        /\ Up(a) /\ d \in DOMAIN disk /\ disk[d] # <<>> /\ Total + Len(disk[d]) <= MaxTotal
        /\ Disjoint(Ch(a) \o disk[d])
        /\ Import(a, d, m)
  \/ \E a \in Ids, csh \in ChunkShapes, ov \in Overlaps, opt \in {0, 1} :
        /\ Up(a) /\ Contiguous(Ch(a)) /\ BBoxStart(Ch(a)) = <<0, 0>>
        /\ Prod(NTiles(<<0, 0>>, BBoxEnd(Ch(a)), csh)) <= MaxChunks
        /\ RebuildAll(a, csh, ov, opt, "gen")
  \/ \E a \in Ids : Up(a) /\ Ch(a) # <<>> /\ VLeq(VSwap(BBoxEnd(Ch(a)), 1, 2), <<W, H>>) /\ SwapAxes(a, 1, 2)

Spec == DInit /\ [][Next]_dvars

Inv == AllWF /\ ShapeExact(N)

\* contents as a function from covered indices to values
View(ch) == [x \in UNION { BoxSet(ch[k].s, ch[k].e) : k \in DOMAIN ch } |-> Cell(ch, x)]
Extends(f, g) == DOMAIN f \subseteq DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]

\* every step leaves the other object alone and changes the contents of an object in one of the permitted ways
StepOk == \A a \in Ids : (obj[a].up /\ obj'[a].up) =>
  LET f == View(obj[a].ch)
      g == View(obj'[a].ch)
  IN \/ Extends(f, g)                                                          \* reads, writes, import, move, flush, rebuild
     \/ (DOMAIN g = { VSwap(x, 1, 2) : x \in DOMAIN f } /\ \A x \in DOMAIN f : g[VSwap(x, 1, 2)] = f[x])  \* swap
     \/ obj'[a].dir # obj[a].dir /\ g = View(disk[obj[a].dir])                 \* crash
DiskOk == \A d \in DOMAIN disk \cap DOMAIN disk' :
  \/ disk'[d] = disk[d]
  \/ \E a \in Ids : obj[a].up /\ obj[a].dir = d /\
        (disk'[d] = obj[a].ch \/ (obj'[a].up /\ disk'[d] = obj'[a].ch /\ View(obj'[a].ch) = View(obj[a].ch)))
Steps == [][StepOk /\ DiskOk]_dvars
\* reopening a directory gives what was flushed
Reopened == [][\A a \in Ids : (~obj[a].up /\ obj'[a].up /\ obj'[a].dir \in DOMAIN disk) => obj'[a].ch = disk[obj'[a].dir]]_dvars
CONSTANT MaxLevel
Bounded == Total <= MaxTotal /\ TLCGet("level") <= MaxLevel
=============================================================================
