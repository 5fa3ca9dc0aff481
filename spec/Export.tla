------------------------------- MODULE Export -------------------------------
(***************************************************************************)
(* The text of an exported signal: one line per sample,                    *)
(*     time, value                                                         *)
(* the time with a fixed number of decimals, the value in scientific       *)
(* notation; both are the exact decimal expansions of the stored numbers,  *)
(* correctly rounded (to even).  A number is <<s, m, e>>: sign bit,        *)
(* integer mantissa, exponent of two.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* decimal digits, lowest first
RECURSIVE MulD(_, _, _, _, _)
MulD(d, c, i, carry, acc) ==
  IF i > Len(d) THEN (IF carry = 0 THEN acc ELSE MulD(d, c, i, carry \div 10, Append(acc, carry % 10)))
  ELSE LET s == d[i] * c + carry IN MulD(d, c, i + 1, s \div 10, Append(acc, s % 10))
Mul(d, c) == MulD(d, c, 1, 0, << >>)
RECURSIVE MulPow(_, _, _)
MulPow(d, b, n) == IF n = 0 THEN d ELSE IF n >= 8 THEN MulPow(Mul(d, b ^ 8), b, n - 8) ELSE Mul(d, b ^ n)
RECURSIVE Strip(_)
Strip(d) == IF d = << >> \/ d[Len(d)] # 0 THEN d ELSE Strip(SubSeq(d, 1, Len(d) - 1))
\* [n, k]: the number is n / 10^k
Decimal(x) == IF x[3] >= 0 THEN [n |-> Strip(MulPow(Mul(<<1>>, x[2]), 2, x[3])), k |-> 0]
              ELSE [n |-> Strip(MulPow(Mul(<<1>>, x[2]), 5, -x[3])), k |-> -x[3]]

RECURSIVE Inc(_, _)
Inc(d, i) == IF i > Len(d) THEN Append(d, 1)
             ELSE IF d[i] = 9 THEN Inc([d EXCEPT ![i] = 0], i + 1) ELSE [d EXCEPT ![i] = @ + 1]
Zeros(n) == [i \in 1..n |-> 0]
Dig(d, i) == IF i \in 1..Len(d) THEN d[i] ELSE 0
\* without the lowest p digits, rounded
Round(d, p) ==
  IF p <= 0 THEN Zeros(-p) \o d
  ELSE LET q == IF p >= Len(d) THEN << >> ELSE SubSeq(d, p + 1, Len(d))
           half == Dig(d, p)
           rest == \E i \in 1..p - 1 : Dig(d, i) # 0
           up == half > 5 \/ (half = 5 /\ (rest \/ Dig(d, p + 1) % 2 = 1))
       IN IF up THEN Inc(q, 1) ELSE q

Text(d) == [i \in 1..Len(d) |-> 48 + d[Len(d) + 1 - i]]                 \* highest first
AtLeast(d, n) == d \o Zeros(n - Len(d))
Sig(s) == IF s = 1 THEN <<45>> ELSE << >>
FixedText(x, prec) ==
  LET d == Decimal(x)
      q == AtLeast(Round(d.n, d.k - prec), prec + 1)
      t == Text(q)
  IN Sig(x[1]) \o SubSeq(t, 1, Len(t) - prec) \o <<46>> \o SubSeq(t, Len(t) - prec + 1, Len(t))
ExpText(n) == LET a == IF n < 0 THEN -n ELSE n IN <<101, IF n < 0 THEN 45 ELSE 43, 48 + (a \div 10), 48 + (a % 10)>>
SciText(x, prec) ==
  LET d == Decimal(x)
      L == Len(d.n)
      q == Round(d.n, L - prec - 1)
      over == Len(q) > prec + 1
      t == Text(IF over THEN Tail(q) ELSE q)
  IN IF L = 0 THEN Sig(x[1]) \o <<48, 46>> \o [i \in 1..prec |-> 48] \o ExpText(0)
     ELSE Sig(x[1]) \o <<t[1], 46>> \o SubSeq(t, 2, prec + 1) \o ExpText(L - 1 - d.k + (IF over THEN 1 ELSE 0))

LineText(t, v, tp, vp) == FixedText(t, tp) \o <<44, 32>> \o SciText(v, vp) \o <<10>>
\* the file is exactly the lines
RECURSIVE LinesOk(_, _, _, _, _, _, _)
LinesOk(ts, vs, tp, vp, i, o, at) ==
  IF i > Len(ts) THEN at = Len(o) + 1
  ELSE \E x \in { LineText(ts[i], vs[i], tp, vp) } :
         /\ at + Len(x) - 1 <= Len(o)
         /\ SubSeq(o, at, at + Len(x) - 1) = x
         /\ LinesOk(ts, vs, tp, vp, i + 1, o, at + Len(x))
ExportOk(ts, vs, tp, vp, o) == LinesOk(ts, vs, tp, vp, 1, o, 1)
=============================================================================
