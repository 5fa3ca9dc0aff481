------------------------------- MODULE Shower -------------------------------
(***************************************************************************)
(* Showers: a library of profiles <<had, en, g, q>> (primary type, energy, *)
(* grammages, charges) and the track made from one of them.                *)
(* Grammages in units of 917/128 kg/m^2, i.e. of a sixteenth of an eighth  *)
(* of a metre of ice; lengths in eighths of a metre; observed lengths,     *)
(* times (as lengths of light) and charges in thousandths.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Dist(a, b) == IF a < b THEN b - a ELSE a - b
Of(lib, had) == { i \in DOMAIN lib : lib[i].had = had }
\* profiles of the energy closest to en, in the order of the library
Closest(lib, had, en) == { e \in { lib[i].en : i \in Of(lib, had) } : \A i \in Of(lib, had) : Dist(en, e) <= Dist(en, lib[i].en) }
Group(lib, had, e) == SelectSeq(lib, LAMBDA p : p.had = had /\ p.en = e)

\* grammage traversed after i steps of k eighths
Traversed(k, i) == 16 * k * i
\* the track has a point after every step that begins before the last grammage of the profile
Points(p, k) == (p.g[Len(p.g)] + 16 * k - 1) \div (16 * k)
\* charge of p at grammage x as <<num, den>>
Charge(p, x) ==
  IF x <= p.g[1] THEN << p.q[1], 1 >>
  ELSE LET j == CHOOSE j \in 2..Len(p.g) : p.g[j - 1] < x /\ x <= p.g[j]
           w == p.g[j] - p.g[j - 1]
       IN << p.q[j - 1] * w + (p.q[j] - p.q[j - 1]) * (x - p.g[j - 1]), w >>
\* direction components times h
Along(dir) == << dir.sz * dir.ca, dir.sz * dir.sa, dir.cz * dir.ha >>
Full(dir) == dir.hz * dir.ha

Near(got, num, den, tol) == LET d == got * den - num IN -tol * den <= d /\ d <= tol * den
\* observed point i (from 0): <<x, y, z, t>>
PointOk(o, at, i, start, dir, k) ==
  /\ \A c \in 1..3 : Near(o[at + c], 125 * (start[c] * Full(dir) + i * k * Along(dir)[c]), Full(dir), 2)
  /\ Near(o[at + 4], 125 * i * k, 1, 1)
ChargeOk(got, p, k, i, en, e) == LET c == Charge(p, Traversed(k, i)) IN Near(got, 1000 * c[1] * en, c[2] * e, 1)

TrackOk(p, e, en, start, dir, k, o) ==
  LET n == Points(p, k)
  IN /\ Len(o.b) = n /\ Len(o.a) = 4 * n
     /\ \A i \in 0..n - 1 : PointOk(o.a, 4 * i, i, start, dir, k) /\ ChargeOk(o.b[i + 1], p, k, i, en, e)
     /\ Len(o.d) = n - 1 /\ Len(o.c) = (IF n > 1 THEN 4 * n ELSE 0)
     /\ n > 1 => \A i \in 0..n - 1 : PointOk(o.c, 4 * i, i, start, dir, k)
     /\ \A i \in 0..n - 2 : ChargeOk(o.d[i + 1], p, k, i, en, e)
     /\ o.ok = 7
\* pick: number within the group, from 0; negative: any
ShowerOk(lib, had, en, pick, start, dir, k, o) ==
  \E e \in Closest(lib, had, en) :
    LET grp == Group(lib, had, e)
    IN IF pick >= 0 THEN TrackOk(grp[pick + 1], e, en, start, dir, k, o)
       ELSE \E i \in DOMAIN grp : TrackOk(grp[i], e, en, start, dir, k, o)
=============================================================================
