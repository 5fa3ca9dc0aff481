---------------------------- MODULE GreensFunction ----------------------------
(***************************************************************************)
(* What a Green's function object is (a field known on a regular (r, z, t) *)
(* grid, interpolated in between), and what the signal of a segment of     *)
(* current is: the trapezoidal sum, over the integration points of the     *)
(* segment, of the interpolated field at the retarded time times current.  *)
(* Nothing here knows about chunks, caches or blocks.                      *)
(*                                                                         *)
(* A Green's function g is a record                                        *)
(*   N        number of grid points per axis (r, z, t)                     *)
(*   st, dt   coordinate of the first grid point, grid spacing, in eighths *)
(*   co, m, zb, zs, ze, bd   the field (see Field)                         *)
(* Coordinates travel in eighths, grid positions in sixteenths of a cell,  *)
(* interpolated values are scaled by 8192.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

\* bd = 1: values beyond the grid are those of the cylindrical boundary rule; otherwise the formula continues
Field(g, c, r0, z, t) ==
  LET r == IF g.bd = 1 /\ r0 < 0 THEN -r0 ELSE r0
      a == g.co[c]
  IN IF g.bd = 1 /\ (r >= g.N[1] \/ z < 0 \/ z >= g.N[2] \/ t < 0 \/ t >= g.N[3]) THEN 0
     ELSE IF g.zb = 1 /\ r >= g.zs[1] /\ r < g.ze[1] /\ z >= g.zs[2] /\ z < g.ze[2] /\ t >= g.zs[3] /\ t < g.ze[3] THEN 0
     ELSE ((a[1] * r + a[2] * z + a[3] * t + a[4] * r * z * t + a[5]) % g.m) - (g.m \div 2)

\* position on the grid, in sixteenths of a cell
Pos(g, i, x8) == ((x8 - g.st[i]) * 16) \div g.dt[i]
Exact(g, i, x8) == ((x8 - g.st[i]) * 16) % g.dt[i] = 0
Inside(g, i, p) == 0 <= p /\ p < 16 * g.N[i]

-----------------------------------------------------------------------------
\* interpolation kernels: weights (times 8192) of the grid points Off(kern) + 1 .. after the cell of the position; k sixteenths
Off(kern) == IF kern = 1 THEN -1 ELSE -2
Kernel(kern, k) == IF kern = 1 THEN << 512 * (16 - k), 512 * k >>
                   ELSE << -256 * k + 32 * k * k - k * k * k, 8192 - 80 * k * k + 3 * k * k * k,
                           256 * k + 64 * k * k - 3 * k * k * k, -16 * k * k + k * k * k >>
RECURSIVE AlongT(_, _, _, _, _, _, _)
AlongT(g, w, c, r, z, t, i) ==
  IF i > Len(w) THEN 0 ELSE (IF w[i] = 0 THEN 0 ELSE w[i] * Field(g, c, r, z, t + i)) + AlongT(g, w, c, r, z, t, i + 1)
RECURSIVE AlongZ(_, _, _, _, _, _, _, _)
AlongZ(g, wz, wt, c, r, z, t, i) ==
  IF i > Len(wz) THEN 0
  ELSE (IF wz[i] = 0 THEN 0 ELSE wz[i] * AlongT(g, wt, c, r, z + i, t, 1)) + AlongZ(g, wz, wt, c, r, z, t, i + 1)
RECURSIVE AlongR(_, _, _, _, _, _, _, _, _)
AlongR(g, wr, wz, wt, c, r, z, t, i) ==
  IF i > Len(wr) THEN 0
  ELSE (IF wr[i] = 0 THEN 0 ELSE wr[i] * (AlongZ(g, wz, wt, c, r + i, z, t, 1) \div 8192)) + AlongR(g, wr, wz, wt, c, r, z, t, i + 1)
\* value (times 8192) of component c at grid position p
Value(g, kern, c, p) ==
  LET o == Off(kern) IN
  AlongR(g, Kernel(kern, p[1] % 16), Kernel(kern, p[2] % 16), Kernel(kern, p[3] % 16), c,
         (p[1] \div 16) + o, (p[2] \div 16) + o, (p[3] \div 16) + o, 1) \div 8192

-----------------------------------------------------------------------------
\* A segment: x0 (start), d (displacement between integration points), n (number of intervals), t0, st (time between points),
\* q (charge), w2 (weight, times 2).
\* A window: ts, dt, ns.  All lengths and times in eighths.
\* integer square root of v < 2^20, bit by bit
RECURSIVE RootFrom(_, _, _)
RootFrom(v, k, b) == IF b = 0 THEN k ELSE RootFrom(v, IF (k + b) * (k + b) <= v THEN k + b ELSE k, b \div 2)
Root(v) == RootFrom(v, 0, 512)
Place(x0, d, i) == [a \in 1..3 |-> x0[a] + i * d[a]]
Radius(x) == Root(x[1] * x[1] + x[2] * x[2])
Representable(x) == LET k == Radius(x) IN k * k = x[1] * x[1] + x[2] * x[2]

Abs(x) == IF x < 0 THEN -x ELSE x
\* the field along the current, times 8192 * 8; the radial component is undefined on the axis and does not contribute there
Along(g, kern, x, d, p) ==
  LET r == Radius(x)
      vr == IF r = 0 \/ d[1] * x[1] + d[2] * x[2] = 0 THEN 0 ELSE (Value(g, kern, 1, p) * (d[1] * x[1] + d[2] * x[2])) \div r
      vz == IF d[3] = 0 THEN 0 ELSE Value(g, kern, 2, p) * d[3]
  IN vr + vz
\* a point on the axis reached by a sideways step is only within rounding of it: the direction is arbitrary there
AxisDoubt(g, kern, x, d, p, i) == IF i = 0 \/ (d[1] = 0 /\ d[2] = 0) \/ x[1] # 0 \/ x[2] # 0 THEN 0
                                  ELSE Abs(Value(g, kern, 1, p)) * (Abs(d[1]) + Abs(d[2]))
Where(g, x, t8) == << Pos(g, 1, Radius(x)), Pos(g, 2, x[3]), Pos(g, 3, t8) >>

\* "in", "out", or "edge": the end of the grid (in time: whether the last point counts is left open), or within rounding of a face
Status(g, d, p) ==
  IF p[1] < 0 \/ p[1] > 16 * g.N[1] \/ p[2] < 0 \/ p[2] > 16 * g.N[2] \/ p[3] < 0 \/ p[3] > 16 * g.N[3] THEN "out"
  ELSE IF p[1] = 16 * g.N[1] \/ p[2] = 16 * g.N[2] \/ p[3] = 16 * g.N[3] \/ (p[1] = 0 /\ g.st[1] > 0) \/ (p[2] = 0 /\ d[3] # 0) THEN "edge"
  ELSE "in"

\* sums over the integration points i <= n of a segment that are not later than the sample:
\* << certain (times 2^17), bound on the doubtful part >>
RECURSIVE SumSteps(_, _, _, _, _)
SumSteps(g, kern, sg, t8, i) ==
  IF i > sg.n \/ sg.t0 + i * sg.st > t8 THEN << 0, 0 >>
  ELSE LET x == TLCEval(Place(sg.x0, sg.d, i))
           p == TLCEval(Where(g, x, t8 - sg.t0 - i * sg.st))
           s == Status(g, sg.d, p)
           w == IF i = 0 \/ i = sg.n THEN 1 ELSE 2
           v == TLCEval(IF s = "out" THEN 0 ELSE w * Along(g, kern, x, sg.d, p))
           rest == TLCEval(SumSteps(g, kern, sg, t8, i + 1))
       IN << IF s = "in" THEN rest[1] + v ELSE rest[1], rest[2] + (IF s = "edge" THEN Abs(v) ELSE 0) + (IF s = "out" THEN 0 ELSE w * AxisDoubt(g, kern, x, sg.d, p, i)) >>
MaxD(d) == Abs(d[1]) + Abs(d[2]) + Abs(d[3])
Sample(ev, j) == ev.ts + j * ev.dt
\* contribution (times 256) of a segment to a sample, and its tolerance
Contribution(g, ev, sg, j) ==
  LET s == TLCEval(SumSteps(g, ev.kern, sg, Sample(ev, j), 0))
      qw == Abs(sg.q * sg.w2)
      c == ((s[1] \div 64) * sg.q * sg.w2) \div 16
  IN << -c, 1 + ((2 + (sg.n + 1) * MaxD(sg.d)) * qw) \div 32 + (((s[2] \div 64) + 1) * qw) \div 16 + Abs(c) \div 32768 >>
RECURSIVE AllContributions(_, _, _, _)
AllContributions(g, ev, j, k) ==
  IF k > Len(ev.segs) THEN << ev.init[j + 1] * 256, 1 + Abs(ev.init[j + 1]) \div 64 >>
  ELSE LET c == TLCEval(Contribution(g, ev, ev.segs[k], j))
           rest == TLCEval(AllContributions(g, ev, j, k + 1))
       IN << rest[1] + c[1], rest[2] + c[2] >>
\* is ev.a[j + 1] (times 256) what the sum says?
SignalOk(g, ev, j) ==
  LET c == TLCEval(AllContributions(g, ev, j, 1)) IN Abs(ev.a[j + 1] - c[1]) <= c[2]

\* pairs (integration point, sample) that matter
AnyStatus(g, ev, what) ==
  \E k \in DOMAIN ev.segs : LET sg == ev.segs[k] IN \E i \in 0..sg.n :
     LET x == TLCEval(Place(sg.x0, sg.d, i)) IN
     \E j \in 0..(ev.ns - 1) : /\ sg.t0 + i * sg.st <= Sample(ev, j)
                               /\ Status(g, sg.d, Where(g, x, Sample(ev, j) - sg.t0 - i * sg.st)) = what
\* ev.only: the samples to compare in long windows, <<>> for all
SegmentOk(g, ev) ==
  /\ \A k \in DOMAIN ev.segs : \A i \in 0..ev.segs[k].n : Representable(Place(ev.segs[k].x0, ev.segs[k].d, i))
  /\ Len(ev.a) = Len(ev.init)
  /\ ev.exc = 1 => ev.mode = 0 /\ (AnyStatus(g, ev, "out") \/ AnyStatus(g, ev, "edge"))
  /\ ev.exc = 0 => /\ ev.mode = 0 => ~AnyStatus(g, ev, "out")
                   /\ \A j \in 0..(ev.ns - 1) : (ev.only = <<>> \/ \E k \in DOMAIN ev.only : ev.only[k] = j) => SignalOk(g, ev, j)
  /\ \A j \in (ev.ns + 1)..Len(ev.init) : ev.a[j] = ev.init[j] * 256        \* nothing but the window is touched

-----------------------------------------------------------------------------
\* one integration point: sources sr, sz at (r, z), samples ts + k * dt relative to the source
PointStatus(g, ev, k) == LET p == << Pos(g, 1, ev.r), Pos(g, 2, ev.z), Pos(g, 3, ev.ts + k * ev.dt) >> IN
  IF \A i \in 1..3 : Inside(g, i, p[i]) THEN "in"
  ELSE IF \A i \in 1..3 : 0 <= p[i] /\ p[i] <= 16 * g.N[i] THEN "edge" ELSE "out"
PointOk(g, ev) ==
  LET at == [k \in 0..(ev.ns - 1) |-> PointStatus(g, ev, k)] IN
  /\ Len(ev.a) = Len(ev.init)
  /\ ev.exc = 1 => ev.mode = 0 /\ \E k \in DOMAIN at : at[k] # "in"
  /\ ev.exc = 0 =>
       /\ ev.mode = 0 => \A k \in DOMAIN at : at[k] # "out"
       /\ \A k \in DOMAIN at :
            LET p == << Pos(g, 1, ev.r), Pos(g, 2, ev.z), Pos(g, 3, ev.ts + k * ev.dt) >>
                v == IF at[k] = "out" THEN 0
                     ELSE (IF ev.sr = 0 THEN 0 ELSE ev.sr * Value(g, ev.kern, 1, p)) + (IF ev.sz = 0 THEN 0 ELSE ev.sz * Value(g, ev.kern, 2, p))
                c == (v * ev.w2) \div 64
                tol == 2 + ((Abs(ev.sr) + Abs(ev.sz)) * Abs(ev.w2)) \div 8 + Abs(c) \div 32768 + Abs(ev.init[k + 1]) \div 128
            IN \/ Abs(ev.a[k + 1] - (ev.init[k + 1] * 256 + c)) <= tol
               \/ at[k] = "edge" /\ Abs(ev.a[k + 1] - ev.init[k + 1] * 256) <= tol
  /\ \A k \in (ev.ns + 1)..Len(ev.init) : ev.a[k] = ev.init[k] * 256

-----------------------------------------------------------------------------
\* sampling on a grid: ns points per axis from s8 in steps of step8
GridOk(g, ev) ==
  /\ ev.sh = ev.ns
  /\ Len(ev.d) = 2 * ev.ns[1] * ev.ns[2] * ev.ns[3]
  /\ \A a \in 0..(ev.ns[1] - 1), b \in 0..(ev.ns[2] - 1), c \in 0..(ev.ns[3] - 1) :
       LET p == << Pos(g, 1, ev.s8[1] + a * ev.step8[1]), Pos(g, 2, ev.s8[2] + b * ev.step8[2]), Pos(g, 3, ev.s8[3] + c * ev.step8[3]) >>
           k == 2 * ((a * ev.ns[2] + b) * ev.ns[3] + c)
       IN \A j \in 1..2 : Abs(ev.d[k + j] - Value(g, ev.kern, j, p) \div 2) <= 4

-----------------------------------------------------------------------------
\* times in units of 1/4096: no sample changes before the first current, however close to it
CauseOk(ev) ==
  /\ ev.exc = 0
  /\ Len(ev.a) = Len(ev.init)
  /\ \A j \in DOMAIN ev.init : (j > ev.ns \/ \A k \in DOMAIN ev.segs : ev.segs[k].t0 > ev.ts + (j - 1) * ev.dt) => ev.a[j] = ev.init[j] * 256

\* one integration point in units of 1/4096: on which side of a face it is, however close
FineStatus(g, ev, k) ==
  LET x == << ev.r, ev.z, ev.ts + k * ev.dt >> IN
  IF \E i \in 1..3 : x[i] < 512 * g.st[i] \/ x[i] > 512 * (g.st[i] + g.dt[i] * g.N[i]) THEN "out"
  ELSE IF \E i \in 1..3 : x[i] = 512 * (g.st[i] + g.dt[i] * g.N[i]) THEN "edge" ELSE "in"
FineOk(g, ev) ==
  LET at == TLCEval([k \in 0..(ev.ns - 1) |-> FineStatus(g, ev, k)]) IN
  /\ Len(ev.a) = Len(ev.init)
  /\ ev.exc = 1 => ev.mode = 0 /\ \E k \in DOMAIN at : at[k] # "in"
  /\ ev.exc = 0 => (ev.mode = 0 => \A k \in DOMAIN at : at[k] # "out")
  /\ \A k \in DOMAIN at : at[k] = "out" => ev.a[k + 1] = ev.init[k + 1] * 256
  /\ \A k \in (ev.ns + 1)..Len(ev.init) : ev.a[k] = ev.init[k] * 256

MetaOk(g, ev) ==
  /\ ev.s = g.st
  /\ ev.e = [i \in 1..3 |-> g.st[i] + g.dt[i] * (g.N[i] - 1)]
  /\ LET b == 8 * g.N[1] * g.N[2] * g.N[3] IN Abs(ev.mb - b) <= 1 + b \div 100000
=============================================================================
