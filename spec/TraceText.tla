------------------------------ MODULE TraceText ------------------------------
(***************************************************************************)
(* Accepts recorded calls iff exported texts are those of Export, special  *)
(* functions and analytic Green's functions those of Analytic, and what    *)
(* the simulation package is told about geometry and antenna is what       *)
(* Geometry says.                                                          *)
(***************************************************************************)
EXTENDS Geometry, Analytic, TLC, Json, IOUtils
X == INSTANCE Export

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == <<l>>
ev == Trace[l]
Is(op) == l <= Len(Trace) /\ ev.op = op /\ l' = l + 1

Exported(e) == X!ExportOk(e.t, e.v, e.tp, e.vp, e.o)

RegionTold(e) == IF RegionValid(e.q)
                 THEN /\ e.r = 1
                      /\ e.e = (IF RegionEmpty(e.q) THEN 1 ELSE 0)
                      /\ e.g = << e.q[1], e.q[2], e.q[3], e.q[4], e.q[2] - e.q[1], e.q[4] - e.q[3] >>
                 ELSE e.r = 0
VolumeTold(e) ==
  IF 0 <= e.vol[1] /\ e.vol[2] <= e.vol[3]
  THEN /\ e.r = 1
       /\ e.g = << 0, e.vol[1], e.vol[2], e.vol[3], e.vol[1], e.vol[3] - e.vol[2] >>
       /\ e.cn = [i \in 1..Len(e.qs) |-> IF Inside(e.vol, e.qs[i]) THEN 1 ELSE 0]
       /\ \A i \in 1..Len(e.ps) :
            LET p == e.ps[i]
                s == ToSim(e.vol, p)
                f == FromSim(e.vol, p)
            IN /\ e.to[2 * i - 1] = s[1] /\ e.to[2 * i] = s[2]
               /\ e.from[2 * i - 1] = f[1] /\ e.from[2 * i] = f[2]
               /\ e.eps[i] = e.a * f[1] + e.b * f[2]
               /\ e.chi[i] = e.eps[i]
  ELSE e.r = 0

AntennaTold(e) ==
  LET a == [s |-> e.s, e |-> e.e, f |-> IF e.fs = << >> THEN 8 ELSE e.fs[Len(e.fs)], p |-> e.p]
      cur == [i \in 1..Len(e.ts) |-> Feed(a, e.ts[i])]
  IN /\ e.own = cur /\ e.src = cur
     /\ e.n = 1 /\ e.c = "Ez" /\ e.at = << 300, e.z - e.vol[2] >>
     /\ e.last = e.e /\ e.int = 0 /\ e.und = 1
\* a whole run scales the feed current with the resolution: e.src is per resolution, in 100000ths, and one response is `unit`
RunTold(e, unit) ==
  /\ e.n = 1 /\ e.c = "Ez" /\ e.at = << 300, e.zpos - e.zmin >>
  /\ \A i \in 1..Len(e.ts) :
       IF e.s <= e.ts[i] /\ e.ts[i] <= e.e THEN e.src[i] + unit * e.p0 \in -2..2 ELSE e.src[i] = 0

\* coordinate of grid point i of n (64ths), as <<num, den>>
\* a grid point is compared if all of it is in whole 64ths
OnGrid(s, e, n, i) == ((e - s) * i) % (n - 1) = 0
Coord(s, e, n, i) == s + ((e - s) * i) \div (n - 1)
Defined(v) == v[1][3] # 999 /\ v[2][3] # 999
DipoleGrid(e) == /\ e.old = 0
                 /\ e.s = e.from /\ e.e = e.upto
                 /\ \A i \in 1..3 : e.n[i] >= 2 /\ StepsOk(e, i, e.e[i] - e.s[i], e.n[i] - 1)
DipolePoint(e, k, v) ==
  LET p == e.pts[k]
  IN IF \E i \in 1..3 : p[i] >= e.n[i] THEN v = << >>
     ELSE IF ~\A i \in 1..3 : OnGrid(e.s[i], e.e[i], e.n[i], p[i]) THEN TRUE
     ELSE \E c \in { [i \in 1..3 |-> Coord(e.s[i], e.e[i], e.n[i], p[i])] } :
          \E R \in { e.dist[k] } :                       \* offered by the generator, 0 if it is not a whole number; nothing is said about points within rmin
            IF R = 0 \/ R * R # c[1] * c[1] + c[2] * c[2] \/ R <= e.rmin THEN TRUE
            ELSE Defined(v) /\ FieldOk(e, c[1], c[2], R, c[3], v[1], v[2])
\* the same along a line in time, up to rounding (relative to the largest value there), in whatever pieces it was produced
Largest(q) == FoldLeft(LAMBDA acc, x : IF x > acc THEN x ELSE IF -x > acc THEN -x ELSE acc, 0, q)
SameRow(x, y) == /\ Len(x) = Len(y)
                 /\ \E tol \in { Largest(y) \div 1000 + 64 } : \A i \in 1..Len(x) : x[i] - y[i] \in -tol..tol
DipoleOk(e) == /\ DipoleGrid(e)
               /\ \A k \in 1..Len(e.pts) : DipolePoint(e, k, e.v[k])
               /\ Len(e.x) = Len(e.y) /\ \A k \in 1..Len(e.x) : SameRow(e.x[k], e.y[k])
               /\ e.grid = 1 => \A k \in 1..Len(e.pts) : DipolePoint(e, k, e.w[k])
Init == l = 1
Reset == Is("Reset")
Call == \/ Is("XExport") /\ Exported(ev) = TRUE
        \/ Is("SRegion") /\ RegionTold(ev) = TRUE
        \/ Is("SVolume") /\ VolumeTold(ev) = TRUE
        \/ Is("SAntenna") /\ AntennaTold(ev) = TRUE
        \/ Is("SRun") /\ RunTold(ev, 11000) = TRUE
        \/ Is("AGamma") /\ GammaOk(ev.a, ev.z, ev.v) = TRUE
        \/ Is("ADipole") /\ DipoleOk(ev) = TRUE
Next == Reset \/ Call
Spec == Init /\ [][Next]_vars
Accepted == LET n == TLCGet("stats").diameter - 1 IN
            IF n = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED-AT", n + 1>>) /\ FALSE
=============================================================================
