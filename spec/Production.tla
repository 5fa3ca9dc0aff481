----------------------------- MODULE Production -----------------------------
(***************************************************************************)
(* What a Green's function produced from a simulation must hold.           *)
(*                                                                         *)
(* The simulation volume has nz x nr cells; the field at cell (z, r) after *)
(* s simulation steps is Fld(g, c, z, r, s) (c = 1: radial, 2: axial).     *)
(* The k-th recorded sample (k = 0, 1, ...) is the field at the first step *)
(* whose time is not before k times the sampling time.  Of the region that *)
(* is asked for, every ds-th cell in either direction is kept.  Where the  *)
(* field is below its largest value so far divided by the dynamic range,   *)
(* or this largest value is not above the smallest field to keep, zero is  *)
(* stored.  The largest value so far is taken over the cell and, possibly, *)
(* some of its direct neighbours.                                          *)
(*                                                                         *)
(* Lengths are in cells, times in 64ths, coordinates in 4096ths.           *)
(***************************************************************************)
EXTENDS ArrayMath

Fld(g, c, z, r, s) ==
  IF s < g.arr * (z + r) THEN 0
  ELSE LET q == g.co[c]
           v == ((q[1] * z + q[2] * r + q[3] * s + q[4] * z * r * s + q[5]) % g.m) - (g.m \div 2)
       IN IF s >= g.bs /\ s < g.be THEN v * g.gain ELSE v

NT(g) == g.tend \div g.ts + 1
StepOf(g, k) == (k * g.ts + g.dt - 1) \div g.dt
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* tables over samples, axial and radial cells (flat: At3)
At3(g, k, z, r) == (k * g.nz + z) * g.nr + r + 1
Size3(g) == NT(g) * g.nz * g.nr
KOf(g, i) == (i - 1) \div (g.nz * g.nr)
ZOf(g, i) == ((i - 1) \div g.nr) % g.nz
ROf(g, i) == (i - 1) % g.nr
\* squared magnitudes; the largest so far there; the same including the direct neighbours
Sq(g) == [i \in 1..Size3(g) |-> LET s == StepOf(g, KOf(g, i))
                                    a == Fld(g, 1, ZOf(g, i), ROf(g, i), s)
                                    b == Fld(g, 2, ZOf(g, i), ROf(g, i), s)
                                IN a * a + b * b]
Own(g, sq) == [i \in 1..Size3(g) |-> MaxOf({ sq[i - j * g.nz * g.nr] : j \in 0..KOf(g, i) })]
Near(g, own) == [i \in 1..Size3(g) |->
                  LET k == KOf(g, i)
                      z == ZOf(g, i)
                      r == ROf(g, i)
                  IN MaxOf({ own[At3(g, k, y, x)] : y \in Max2(0, z - 1)..Min2(g.nz - 1, z + 1), x \in Max2(0, r - 1)..Min2(g.nr - 1, r + 1) })]

PowTwo(n) == n \in {1, 2, 4, 8, 16, 32, 64}
\* amin is in halves
MayBeZero(g, cur, own, near) == \/ 4 * own <= g.amin * g.amin
                                \/ cur * g.dyn * g.dyn < near
                                \/ ~PowTwo(g.dyn) /\ cur * g.dyn * g.dyn = near      \* a tie, up to rounding
MayBeKept(g, cur, own, near) == /\ 4 * near > g.amin * g.amin
                                /\ cur * g.dyn * g.dyn >= own
                                /\ 4 * cur * g.dyn * g.dyn > g.amin * g.amin
Enc(a, b) == (a + 500) + 1000 * (b + 500)
Zero == Enc(0, 0)
CellOk(g, t, v, k, z, r) ==
  LET s == StepOf(g, k)
      e == Enc(Fld(g, 1, z, r, s), Fld(g, 2, z, r, s))
  IN \/ v = Zero /\ (e = Zero \/ MayBeZero(g, t.sq[At3(g, k, z, r)], t.own[At3(g, k, z, r)], t.near[At3(g, k, z, r)]))
     \/ v = e /\ MayBeKept(g, t.sq[At3(g, k, z, r)], t.own[At3(g, k, z, r)], t.near[At3(g, k, z, r)])

-----------------------------------------------------------------------------
\* requests: q = <<r from, r to, z from, z to>> in eighths of a cell, counted from the corner of the simulation volume
Acceptable(g) == /\ g.whole = 1                                    \* the volume is a whole number of cells
                 /\ 0 <= g.q[1] /\ g.q[2] <= 8 * g.nr /\ 0 <= g.q[3] /\ g.q[4] <= 8 * g.nz
                 /\ g.q[1] < g.q[2] /\ g.q[3] < g.q[4]
                 /\ g.pre # 2                                      \* something is there already

\* the region that is stored, from the coordinates that come with the result
Cells(g, x, x0) == (x - x0) \div g.cell
Whole(g, x, x0) == (x - x0) % g.cell = 0
Near8(a8, b) == a8 - b * 8 \in -7..7         \* a8 eighths of a cell are b cells, up to less than one cell
RegionOk(g, o) == /\ Whole(g, o.s[1], 0) /\ Whole(g, o.e[1], 0) /\ Whole(g, o.s[2], g.zmin) /\ Whole(g, o.e[2], g.zmin)
                  /\ LET r0 == Cells(g, o.s[1], 0)
                         r1 == Cells(g, o.e[1], 0)
                         z0 == Cells(g, o.s[2], g.zmin)
                         z1 == Cells(g, o.e[2], g.zmin)
                     IN /\ 0 <= r0 /\ r1 <= g.nr /\ 0 <= z0 /\ z1 <= g.nz
                        /\ Near8(g.q[1], r0) /\ Near8(g.q[3], z0) /\ Near8(g.q[2] - g.q[1], r1 - r0) /\ Near8(g.q[4] - g.q[3], z1 - z0)
                  /\ o.s[3] = 0 /\ o.e[3] = g.tend * 64

CeilDiv(a, b) == (a + b - 1) \div b

\* what everything else is computed from: stored region (first and last cell, (r, z)), padding, shape of the result, tables
Layout(g, o) ==
  LET S == << Cells(g, o.s[1], 0), Cells(g, o.s[2], g.zmin) >>
      E == << Cells(g, o.e[1], 0), Cells(g, o.e[2], g.zmin) >>
      lim == << g.nr, g.nz >>
  IN [S |-> S,
      N |-> << CeilDiv(E[1] - S[1], g.ds), CeilDiv(E[2] - S[2], g.ds), NT(g) >>,
      pre |-> [i \in 1..2 |-> Min2(S[i] \div g.ds, g.ov)],
      post |-> [i \in 1..2 |-> Min2((lim[i] - E[i]) \div g.ds, g.ov)]]

\* is x (r, z, t) kept, if only as padding?
Known(p, x) == /\ \A i \in 1..2 : -p.pre[i] <= x[i] /\ x[i] < p.N[i] + p.post[i]
               /\ 0 <= x[3] /\ x[3] < p.N[3]
At(g, p, t, x, v) == CellOk(g, t, v, x[3], p.S[2] + g.ds * x[2], p.S[1] + g.ds * x[1])
Mirror(p, x) == << -x[1] - 2 * p.pre[1], x[2], x[3] >>                 \* at the axis
ElemOk(g, p, t, x, v) ==
  IF Known(p, x) THEN At(g, p, t, x, v)
  ELSE IF x[1] < -p.pre[1]
       THEN \/ p.S[1] - g.ds * p.pre[1] # 0                             \* kept cells do not begin at the axis
            \/ IF Known(p, Mirror(p, x)) THEN At(g, p, t, Mirror(p, x), v) ELSE v = Zero
       ELSE v = Zero
ChunksOk(g, p, o) ==
  /\ o.sh = p.N
  /\ \A k \in DOMAIN o.ch : \E c \in { o.ch[k] } :
       /\ VLess(c.s, c.e) /\ c.ov = g.ov
       /\ Len(c.d) = Prod(ExtShape(c))
       /\ \A i \in 1..3 : c.e[i] - c.s[i] <= g.csh /\ 0 <= c.s[i] /\ c.e[i] <= p.N[i]
  /\ Disjoint(o.ch) /\ Volume(o.ch) = Prod(p.N)
\* all elements, margins included; margins repeat what the neighbours hold
ValuesOk(g, p, t, core, c) ==
  \E sh \in { ExtShape(c) } : \E st \in { ExtStart(c) } :
    \A j \in 1..Len(c.d) :
      \E x \in { VAdd(st, UnFlat(sh, j - 1)) } :
        /\ ElemOk(g, p, t, x, c.d[j])
        /\ (InBox(<<0, 0, 0>>, p.N, x) => c.d[j] = core[Flat(p.N, x) + 1])
\* the elements of the array in row-major order (bound by quantifiers so that TLC computes every table once)
Core(o) == [q \in 1..Prod(o.sh) |-> CellOr(o.ch, UnFlat(o.sh, q - 1), 0)]
ResultOk(g, o, core) ==
  \E p \in { TLCEval(Layout(g, o)) } : \E sq \in { TLCEval(Sq(g)) } : \E own \in { TLCEval(Own(g, sq)) } : \E near \in { TLCEval(Near(g, own)) } :
    \E t \in { [sq |-> sq, own |-> own, near |-> near] } :
      /\ ChunksOk(g, p, o)
      /\ \A k \in DOMAIN o.ch : ValuesOk(g, p, t, core, o.ch[k])
=============================================================================
