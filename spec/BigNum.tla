------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Fixed-point numbers of W limbs with base B, the last F of which (the    *)
(* first in the sequence: lowest first) are behind the point.  The highest *)
(* limb carries the sign.  Everything is built from multiplication and     *)
(* division by small integers, so that TLC's 32 bits suffice.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

B == 10000
W == 10
F == 4
Lim == 200000               \* factors and divisors have to be below this

\* (folds, not recursion: TLC evaluates these eagerly)
NormStep(acc, x) == << Append(acc[1], (x + acc[2]) % B), (x + acc[2]) \div B >>
Norm(d) == LET p == FoldLeft(NormStep, << << >>, 0 >>, SubSeq(d, 1, W - 1)) IN Append(p[1], d[W] + p[2])
FromInt(n) == Norm([i \in 1..W |-> IF i = F + 1 THEN n ELSE 0])
Zero == [i \in 1..W |-> 0]
One == FromInt(1)
Add(a, b) == Norm([i \in 1..W |-> a[i] + b[i]])
Sub(a, b) == Norm([i \in 1..W |-> a[i] - b[i]])
Neg(a) == Sub(Zero, a)
Sign(a) == IF a[W] < 0 THEN -1 ELSE IF \A i \in 1..W : a[i] = 0 THEN 0 ELSE 1
Le(a, b) == Sub(b, a)[W] >= 0
Abs(a) == IF a[W] < 0 THEN Neg(a) ELSE a

MulS(a, c) == Norm([i \in 1..W |-> a[i] * c])
\* c > 0; rounds down
DivS(a, c) == FoldRight(LAMBDA x, acc : << << (acc[2] * B + x) \div c >> \o acc[1], (acc[2] * B + x) % c >>, a, << << >>, 0 >>)[1]
Times(a, p, q) == DivS(MulS(a, p), q)

\* 24 bit mantissa m, times two to the e
RECURSIVE Shift(_, _)
Shift(a, e) == IF e = 0 THEN a
               ELSE IF e <= -15 THEN Shift(DivS(a, 32768), e + 15)
               ELSE IF e < 0 THEN DivS(a, 2 ^ (-e))
               ELSE IF e >= 15 THEN Shift(MulS(a, 32768), e - 15)
               ELSE MulS(a, 2 ^ e)
MulFloat(a, m, e) == Add(Shift(MulS(a, m \div 4096), e + 12), Shift(MulS(a, m % 4096), e))

\* sum of x^k / k! for k from 0 up to n; x = p / q >= 0
ExpSum(p, q, n) ==
  LET last == FoldLeft(LAMBDA acc, k : << Times(acc[1], p, q * k), [i \in 1..W |-> acc[1][i] + acc[2][i]] >>, << One, Zero >>, [k \in 1..n |-> k])
  IN Add(last[1], last[2])
\* enough terms for a dozen digits if x is below 40
Exp(p, q) == ExpSum(p, q, 2 * (p \div q) + 40)

Pow(p, q, n) == FoldLeft(LAMBDA acc, k : Times(acc, p, q), One, [k \in 1..n |-> k])
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
=============================================================================
