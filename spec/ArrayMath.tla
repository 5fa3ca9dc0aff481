------------------------------ MODULE ArrayMath ------------------------------
(***************************************************************************)
(* Pure operators on rectangular index regions and chunked arrays.         *)
(* An index is a sequence of integers (one per dimension), a box is a pair *)
(* (s, e) of indices denoting { x : s <= x < e }, and dense data are       *)
(* stored as a sequence in row-major order.                                *)
(*                                                                         *)
(* A chunk is a record                                                     *)
(*   s, e  : the box of elements it contributes to the array               *)
(*   ov    : number of margin elements on every face                       *)
(*   null  : 1 iff it is recorded without a data file                      *)
(*   d     : row-major values of the box extended by the margin            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE ProdFrom(_, _)
ProdFrom(v, i) == IF i > Len(v) THEN 1 ELSE v[i] * ProdFrom(v, i + 1)
Prod(v) == ProdFrom(v, 1)

VAdd(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
VSub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
VAddS(u, k) == [i \in DOMAIN u |-> u[i] + k]
VMin(u, v) == [i \in DOMAIN u |-> IF u[i] < v[i] THEN u[i] ELSE v[i]]
VMax(u, v) == [i \in DOMAIN u |-> IF u[i] > v[i] THEN u[i] ELSE v[i]]
VConst(n, k) == [i \in 1..n |-> k]
VSwap(u, i, j) == [u EXCEPT ![i] = u[j], ![j] = u[i]]
VLess(u, v) == \A i \in DOMAIN u : u[i] < v[i]
VLeq(u, v) == \A i \in DOMAIN u : u[i] <= v[i]

\* row-major position (0-based) of index x in an array of shape sh, and back
RECURSIVE FlatFrom(_, _, _, _)
FlatFrom(sh, x, i, acc) == IF i > Len(sh) THEN acc ELSE FlatFrom(sh, x, i + 1, acc * sh[i] + x[i])
Flat(sh, x) == FlatFrom(sh, x, 1, 0)

RECURSIVE StrideFrom(_, _)
StrideFrom(sh, i) == IF i >= Len(sh) THEN 1 ELSE sh[i + 1] * StrideFrom(sh, i + 1)
UnFlat(sh, k) == [i \in 1..Len(sh) |-> (k \div StrideFrom(sh, i)) % sh[i]]

InBox(s, e, x) == \A i \in DOMAIN x : s[i] <= x[i] /\ x[i] < e[i]
EmptyBox(s, e) == \E i \in DOMAIN s : e[i] <= s[i]
BoxesMeet(s1, e1, s2, e2) == \A i \in DOMAIN s1 : s1[i] < e2[i] /\ s2[i] < e1[i]

\* all indices of a box, as a row-major sequence and as a set
BoxSeq(s, e) == LET sh == VSub(e, s) IN
  IF EmptyBox(s, e) THEN <<>> ELSE TLCEval([k \in 1..Prod(sh) |-> VAdd(s, UnFlat(sh, k - 1))])
BoxSet(s, e) == LET q == BoxSeq(s, e) IN { q[k] : k \in DOMAIN q }
IsPerm(p, n) == Len(p) = n /\ { p[i] : i \in 1..n } = 1..n

AllZero(d) == \A k \in DOMAIN d : d[k] = 0

-----------------------------------------------------------------------------
\* chunks and chunk sequences ("the contents of a distributed array")

ExtShape(c) == [i \in DOMAIN c.s |-> c.e[i] - c.s[i] + 2 * c.ov]
ExtStart(c) == VAddS(c.s, -c.ov)
ExtEnd(c) == VAddS(c.e, c.ov)
ChunkWF(c) == /\ VLess(c.s, c.e)
              /\ Len(c.d) = Prod(ExtShape(c))
              /\ c.null = 1 => AllZero(c.d)
Covers(c, x) == InBox(c.s, c.e, x)
ChunkVal(c, x) == c.d[Flat(ExtShape(c), VSub(x, ExtStart(c))) + 1]

\* position of the chunk holding index x, 0 if there is none
Locate(ch, x) == IF \E k \in DOMAIN ch : Covers(ch[k], x)
                 THEN CHOOSE k \in DOMAIN ch : Covers(ch[k], x) ELSE 0
Covered(ch, x) == \E k \in DOMAIN ch : Covers(ch[k], x)
Cell(ch, x) == ChunkVal(ch[Locate(ch, x)], x)
CellOr(ch, x, default) == LET k == Locate(ch, x) IN IF k = 0 THEN default ELSE ChunkVal(ch[k], x)

Disjoint(ch) == \A i, j \in DOMAIN ch : i # j => ~BoxesMeet(ch[i].s, ch[i].e, ch[j].s, ch[j].e)
ContentWF(ch) == (\A k \in DOMAIN ch : ChunkWF(ch[k])) /\ Disjoint(ch)

MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
BBoxStart(ch) == [i \in DOMAIN ch[1].s |-> MinOf({ ch[k].s[i] : k \in DOMAIN ch })]
BBoxEnd(ch) == [i \in DOMAIN ch[1].s |-> MaxOf({ ch[k].e[i] : k \in DOMAIN ch })]

RECURSIVE VolFrom(_, _)
VolFrom(ch, k) == IF k > Len(ch) THEN 0 ELSE Prod(VSub(ch[k].e, ch[k].s)) + VolFrom(ch, k + 1)
Volume(ch) == VolFrom(ch, 1)

\* chunks are disjoint, hence they fill their bounding box iff the volumes agree
Contiguous(ch) == ch # <<>> /\ Volume(ch) = Prod(VSub(BBoxEnd(ch), BBoxStart(ch)))
Shape(ch, n) == IF ch = <<>> \/ ~Contiguous(ch) THEN VConst(n, 0)
                ELSE VSub(BBoxEnd(ch), BBoxStart(ch))

\* the shape by definition, i.e. without counting volumes
ShapeDef(ch, n) == IF ch # <<>> /\ \A x \in BoxSet(BBoxStart(ch), BBoxEnd(ch)) : Covered(ch, x)
                   THEN VSub(BBoxEnd(ch), BBoxStart(ch)) ELSE VConst(n, 0)

-----------------------------------------------------------------------------
\* extending a chunk by a slice (d, shape sh) along axis ax (chunk without margin)

Concat(c, ax, sh, d) ==
  LET sh1 == VSub(c.e, c.s)
      sh2 == [sh1 EXCEPT ![ax] = @ + sh[ax]]
      src(x) == IF x[ax] < sh1[ax] THEN c.d[Flat(sh1, x) + 1]
                ELSE d[Flat(sh, [x EXCEPT ![ax] = @ - sh1[ax]]) + 1]
  IN [c EXCEPT !.e[ax] = @ + sh[ax],
               !.d = [k \in 1..Prod(sh2) |-> src(UnFlat(sh2, k - 1))]]
FitsChunk(c, ax, sh) == \A i \in DOMAIN sh : i # ax => sh[i] = c.e[i] - c.s[i]

-----------------------------------------------------------------------------
\* exchanging two coordinates

SwapChunk(c, i, j) ==
  LET sh1 == ExtShape(c)
      sh2 == VSwap(sh1, i, j)
  IN [c EXCEPT !.s = VSwap(c.s, i, j), !.e = VSwap(c.e, i, j),
               !.d = [k \in 1..Prod(sh2) |-> c.d[Flat(sh1, VSwap(UnFlat(sh2, k - 1), i, j)) + 1]]]
SwapContent(ch, i, j) == [k \in DOMAIN ch |-> SwapChunk(ch[k], i, j)]

-----------------------------------------------------------------------------
\* tiling the box (s, e) with chunks of shape csh, the first one starting at s

NTiles(s, e, csh) == [i \in DOMAIN s |-> (e[i] - s[i] + csh[i] - 1) \div csh[i]]
TileStart(s, csh, t) == [i \in DOMAIN s |-> s[i] + t[i] * csh[i]]
TileEnd(s, e, csh, t) == [i \in DOMAIN s |-> LET u == s[i] + (t[i] + 1) * csh[i] IN IF u < e[i] THEN u ELSE e[i]]
Tiles(s, e, csh) ==
  IF EmptyBox(s, e) THEN <<>>
  ELSE LET nt == NTiles(s, e, csh)
           ts == BoxSeq(VConst(Len(s), 0), nt)
       IN TLCEval([k \in DOMAIN ts |-> << TileStart(s, csh, ts[k]), TileEnd(s, e, csh, ts[k]) >>])

\* Rebuilding the box (s, e) of content ch into chunks of shape csh with margin ov, placed at o.
\* Bd(x) is the value prescribed for an index outside of the array (given by its bounding box).
RebuildChunk(ch, ts, te, shift, ov, opt, Bd(_)) ==
  LET xs == VAddS(ts, -ov)
      xe == VAddS(te, ov)
      gs == BBoxStart(ch)
      ge == BBoxEnd(ch)
      q == BoxSeq(xs, xe)
      d == TLCEval([k \in DOMAIN q |-> IF InBox(gs, ge, q[k]) THEN Cell(ch, q[k]) ELSE Bd(q[k])])
  IN [s |-> VAdd(ts, shift), e |-> VAdd(te, shift), ov |-> ov,
      null |-> IF opt = 1 /\ AllZero(d) THEN 1 ELSE 0, d |-> d]
Rebuild(ch, s, e, o, csh, ov, opt, Bd(_)) ==
  LET tl == Tiles(s, e, csh) IN
  [k \in DOMAIN tl |-> RebuildChunk(ch, tl[k][1], tl[k][2], VSub(o, s), ov, opt, Bd)]
\* the margin elements outside of the array
RebuildCalls(ch, s, e, csh, ov) ==
  LET tl == Tiles(s, e, csh) IN
  { x \in UNION { BoxSet(VAddS(tl[k][1], -ov), VAddS(tl[k][2], ov)) : k \in DOMAIN tl } :
      ~InBox(BBoxStart(ch), BBoxEnd(ch), x) }

\* the boundary rules used with the implementation
EvalGen(x) == LET h[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE h[i - 1] * 7 + x[i] + 40
              IN (h[Len(x)] % 899) + 1
EvalCyl(ch, x) == IF x[1] < 0 THEN CellOr(ch, [x EXCEPT ![1] = -x[1]], 0) ELSE 0
Bound(ch, kind, x) == IF kind = "cyl" THEN EvalCyl(ch, x) ELSE EvalGen(x)
=============================================================================
