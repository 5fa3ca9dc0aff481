------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* Incomplete gamma function of integer order, and the field of a vertical *)
(* electric dipole with a (low-pass filtered) step current in a homogenous *)
(* medium, from their definitions.                                         *)
(*                                                                         *)
(*   Gamma(a, z) exp(z) = (a - 1)! sum_{k < a} z^k / k!                    *)
(*                                                                         *)
(* The dipole at the origin, seen at (r, z) at distance R after the time   *)
(* t, tau = R n:  with d = t - tau, x = N d / tp (zero if d <= 0)          *)
(*   theta  = 1 - exp(-x) sum_{k <= N} x^k / k!                            *)
(*   delta  = exp(-x) x^N / (tp (N - 1)!)                                  *)
(*   delta' = delta (tp - d) N / (tp d)                                    *)
(*   E_R     = -2 cos / (4 pi n^2 R^3) (theta + tau delta)                 *)
(*   E_theta = - sin / (4 pi n^2 R^3) (theta + tau delta + tau^2 delta')   *)
(* both sides are compared after multiplication with exp(x) (x up to 40).   *)
(***************************************************************************)
EXTENDS BigNum

\* v = <<sign, mantissa, exponent>>
Val(v, a) == IF v[1] = 1 THEN Neg(MulFloat(a, v[2], v[3])) ELSE MulFloat(a, v[2], v[3])
Close(a, b, tol) == Le(Abs(Sub(a, b)), tol)

\* z in 64ths
GammaOk(a, z, v) ==
  \E rhs \in { MulS(ExpSum(z, 64, a - 1), Fact(a - 1)) } :
    \E e \in { Exp(z, 64) } :
      \E lhs \in { Val(v, e) } : Close(lhs, rhs, DivS(rhs, 5000))

\* g: n4 (index of refraction, 4ths), tp4 (peaking time, 4ths), N.  r, z, R, t in 64ths; R >= |z|, r^2 + z^2 = R^2.
\* d in 256ths
Del(g, R, t) == 4 * t - R * g.n4
\* exp(x) times theta + tau delta, and times tau^2 delta'
XP(g, R, t) == g.N * Del(g, R, t)        \* x = XP / XQ
XQ(g) == 64 * g.tp4
Body(g, R, t) ==
  IF Del(g, R, t) <= 0 THEN [e |-> One, f |-> Zero, h |-> Zero]
  ELSE LET e == Exp(XP(g, R, t), XQ(g))
           w == DivS(Times(Pow(XP(g, R, t), XQ(g), g.N), 4, g.tp4), Fact(g.N - 1))    \* exp(x) delta
           td == Times(w, R * g.n4, 256)
           h == Times(Times(Times(td, R * g.n4, 256), 64 * g.tp4 - Del(g, R, t), g.tp4), 4 * g.N, Del(g, R, t))
       IN [e |-> e, f |-> Add(Sub(e, ExpSum(XP(g, R, t), XQ(g), g.N)), td), h |-> h]

Trig(a, p, q, R) == Times(Times(a, p, R), q, R)
\* left: v exp(x) 4 pi n^2 R^3
Left(g, R, b, v) ==
  LET u == Val(v, b.e)
      p == DivS(MulS(MulS(u, 355), 4), 113)
      n == DivS(MulS(MulS(p, g.n4), g.n4), 16)
  IN Times(Times(Times(n, R, 64), R, 64), R, 64)
FieldOk(g, r, z, R, t, er, ez) ==
  XP(g, R, t) > 40 * XQ(g) \/
  \E b \in { Body(g, R, t) } :
    \E rr \in { Neg(Trig(Add(MulS(b.f, 3), b.h), r, z, R)) } :
    \E zz \in { Sub(Trig(Add(b.f, b.h), r, r, R), MulS(Trig(b.f, z, z, R), 2)) } :
    \E tol \in { Add(DivS(b.e, 20000), DivS(Add(Abs(b.f), Abs(b.h)), 1000)) } :
      /\ Close(Left(g, R, b, er), rr, tol)
      /\ Close(Left(g, R, b, ez), zz, tol)

-----------------------------------------------------------------------------
\* Sampling: os (100ths) times what the filter's band asks for.  The band ends at y N / (2 pi tp) with (1 + y^2)^(N + 1) = 2.
Y10000 == << 6435, 5098, 4349, 3856, 3499, 3226, 3008, 2829 >>
RECURSIVE Band(_, _, _)
Band(s, y, n) == IF n = 0 THEN s ELSE Band(Add(s, Times(Times(s, y, 10000), y, 10000)), y, n - 1)
ASSUME \A N \in DOMAIN Y10000 : Le(Band(One, Y10000[N], N + 1), FromInt(2)) /\ ~Le(Band(One, Y10000[N] + 1, N + 1), FromInt(2))
\* number of steps for an extent (64ths) along axis i, with y and pi = p / q: extent n N y os / (pi tp)
Steps(g, i, len, y, p, q) ==
  LET a == Times(Times(One, len, 64), g.N * y, 10000)
      b == Times(Times(Times(a, g.os, 100), q, p), 4, g.tp4)
  IN IF i = 3 THEN b ELSE Times(b, g.n4, 4)
Within(k, lo, hi) == k >= lo[F + 1] /\ k <= hi[F + 1]
\* whole steps; a millionth more or less is rounding
StepsOk(g, i, len, k) == Within(k, Sub(Steps(g, i, len, Y10000[g.N], 355, 113), DivS(One, 1000)), Add(Steps(g, i, len, Y10000[g.N] + 1, 333, 106), DivS(One, 1000)))
=============================================================================
