------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* What the simulation package is told: regions, coordinates, permittivity *)
(* and the feed current of the antenna.  Lengths and times in 64ths.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

RegionValid(q) == 0 <= q[1] /\ q[1] <= q[2] /\ q[3] <= q[4]             \* r from, r to, z from, z to
RegionEmpty(q) == q[1] = q[2] \/ q[3] = q[4]
VolumeValid(v) == 0 <= v[1] /\ v[2] <= v[3]                              \* r to, z from, z to
Inside(v, q) == 0 <= q[1] /\ q[2] <= v[1] /\ v[2] <= q[3] /\ q[4] <= v[3]

\* the package's coordinates begin at zero
ToSim(v, p) == << p[1], p[2] - v[2] >>
FromSim(v, p) == << p[1], p[2] + v[2] >>

\* feed current at time t: a.s, a.e window; a.f scale factor (8ths); a.p[1] + a.p[2] t response.  In 512ths.
Feed(a, t) == IF a.s <= t /\ t <= a.e THEN -(a.f * (64 * a.p[1] + a.p[2] * t)) ELSE 0
\* source: at 1.5 cells from the axis (in half cells), at the antenna's position
=============================================================================
