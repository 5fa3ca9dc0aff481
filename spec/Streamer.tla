------------------------------- MODULE Streamer -------------------------------
(***************************************************************************)
(* The on-disk representation of dense arrays and what may be done to it.  *)
(*                                                                         *)
(* Data are sequences (row-major) of vectors, a vector is a sequence of    *)
(* 32-bit words (bit patterns of floats, as signed integers).  A stored    *)
(* array is a record                                                       *)
(*   ser : shape of its serialization chunks (Inf: as large as the array)  *)
(*   sh  : its shape                                                       *)
(*   fin : 1 iff further extension is not allowed                          *)
(*   segs: one segment [m, w] per serialization chunk, in row-major order; *)
(*         m = 1: the words as they are; m = 2: runs of zero vectors are   *)
(*         replaced by one zero vector and the length of the run           *)
(* A file is a sequence of stored arrays.                                  *)
(***************************************************************************)
EXTENDS ArrayMath, SequencesExt, TLC

Inf == -1
SerShape(sh, ser) == [i \in DOMAIN sh |-> IF ser[i] = Inf THEN sh[i] ELSE ser[i]]
WellFormed(ser) == \E i \in DOMAIN ser : ser[i] # Inf
\* boxes of the serialization chunks of an array of shape sh
SerBoxes(sh, ser) == Tiles(VConst(Len(sh), 0), sh, SerShape(sh, ser))

Pick(d, sh, b) == LET q == BoxSeq(b[1], b[2]) IN TLCEval([k \in DOMAIN q |-> d[Flat(sh, q[k]) + 1]])
Flatten(vs) == IF vs = <<>> THEN <<>>
               ELSE LET n == Len(vs[1]) IN TLCEval([k \in 1..(n * Len(vs)) |-> vs[(k - 1) \div n + 1][((k - 1) % n) + 1]])
Group(ws, n) == TLCEval([k \in 1..(Len(ws) \div n) |-> [c \in 1..n |-> ws[(k - 1) * n + c]]])
NullVec(v) == \A c \in DOMAIN v : v[c] = 0

\* suppression of zero vectors
SupStep(a, v) == IF NullVec(v) THEN IF a.n = 0 THEN [out |-> a.out \o v, n |-> 1] ELSE [a EXCEPT !.n = @ + 1]
                 ELSE IF a.n = 0 THEN [a EXCEPT !.out = @ \o v] ELSE [out |-> Append(a.out, a.n) \o v, n |-> 0]
Suppress(vs) == LET a == FoldLeft(SupStep, [out |-> <<>>, n |-> 0], vs) IN IF a.n = 0 THEN a.out ELSE Append(a.out, a.n)
\* back again; stops early if the words do not describe at most `room` vectors
RECURSIVE Desuppress(_, _, _, _)
Desuppress(ws, i, n, room) ==
  IF i + n - 1 > Len(ws) \/ room <= 0 THEN <<>>
  ELSE LET v == SubSeq(ws, i, i + n - 1) IN
       IF ~NullVec(v) THEN <<v>> \o Desuppress(ws, i + n, n, room - 1)
       ELSE IF i + n > Len(ws) THEN <<>>
       ELSE IF ws[i + n] < 1 \/ ws[i + n] > room THEN <<>>
       ELSE [k \in 1..ws[i + n] |-> v] \o Desuppress(ws, i + n + 1, n, room - ws[i + n])

Segment(m, vs) == [m |-> m, w |-> IF m = 1 THEN Flatten(vs) ELSE Suppress(vs)]
SegData(s, n, room) == IF s.m = 1 THEN Group(s.w, n) ELSE Desuppress(s.w, 1, n, room)
Segments(sh, ser, m, d) == LET b == SerBoxes(sh, ser) IN TLCEval([k \in DOMAIN b |-> Segment(m, Pick(d, sh, b[k]))])

\* all serialization chunks have the same shape
EvenlyDivided(sh, ser) == LET c == SerShape(sh, ser) IN \A i \in DOMAIN sh : c[i] >= sh[i] \/ sh[i] % c[i] = 0
Store(sh, ser, m, d) == [ser |-> ser, sh |-> sh, fin |-> IF EvenlyDivided(sh, ser) THEN 0 ELSE 1, segs |-> Segments(sh, ser, m, d)]

\* reading: segment k belongs to box k of the whole array (n: number of vector components)
Load(a, n) ==
  LET b == SerBoxes(a.sh, a.ser)
      seg == TLCEval([k \in DOMAIN b |-> SegData(a.segs[k], n, Prod(VSub(b[k][2], b[k][1])))])
      q == BoxSeq(VConst(Len(a.sh), 0), a.sh)
      c == SerShape(a.sh, a.ser)
      nt == NTiles(VConst(Len(a.sh), 0), a.sh, c)
      BoxNo(x) == Flat(nt, [i \in DOMAIN x |-> x[i] \div c[i]]) + 1
  IN TLCEval([k \in DOMAIN q |-> LET j == BoxNo(q[k]) IN seg[j][Flat(VSub(b[j][2], b[j][1]), VSub(q[k], b[j][1])) + 1]])

\* every segment describes exactly the vectors of its box
Consistent(a, n) ==
  LET b == SerBoxes(a.sh, a.ser) IN
  /\ Len(a.segs) = Len(b)
  /\ \A k \in DOMAIN b : LET v == Prod(VSub(b[k][2], b[k][1])) IN
       /\ a.segs[k].m \in {1, 2}
       /\ a.segs[k].m = 1 => Len(a.segs[k].w) = n * v
       /\ Len(SegData(a.segs[k], n, v)) = v

\* extension by a slice along axis ax
ShapeFits(a, ax, sh) == \A i \in DOMAIN sh : i # ax => sh[i] = a.sh[i]
Extendable(a, ax, sh) ==
  /\ a.fin = 0
  /\ ShapeFits(a, ax, sh)
  /\ a.ser[ax] # Inf /\ a.ser[ax] <= a.sh[ax] /\ a.sh[ax] % a.ser[ax] = 0          \* no partial chunk along the axis
  /\ \A i \in 1..(ax - 1) : a.ser[i] = Inf \/ a.ser[i] >= a.sh[i]                  \* chunks of the slice come last
Extend(a, ax, sh, m, d) == [ser |-> a.ser, sh |-> [a.sh EXCEPT ![ax] = @ + sh[ax]],
                            fin |-> IF EvenlyDivided(sh, a.ser) THEN 0 ELSE 1,
                            segs |-> a.segs \o Segments(sh, a.ser, m, d)]
Finalize(a) == [a EXCEPT !.fin = 1]

\* the mathematical array: concatenation
Joined(sh1, d1, ax, sh2, d2) ==
  LET sh == [sh1 EXCEPT ![ax] = @ + sh2[ax]] IN
  TLCEval([k \in 1..Prod(sh) |-> LET x == UnFlat(sh, k - 1) IN
     IF x[ax] < sh1[ax] THEN d1[Flat(sh1, x) + 1] ELSE d2[Flat(sh2, [x EXCEPT ![ax] = @ - sh1[ax]]) + 1]])

\* the layout can represent the extension: its chunk loop is the old one followed by the one of the slice
Representable(a, ax, sh) ==
  /\ ShapeFits(a, ax, sh)
  /\ LET off == [VConst(Len(sh), 0) EXCEPT ![ax] = a.sh[ax]]
         b2 == SerBoxes(sh, a.ser)
     IN SerBoxes([a.sh EXCEPT ![ax] = @ + sh[ax]], a.ser)
        = SerBoxes(a.sh, a.ser) \o [k \in DOMAIN b2 |-> << VAdd(b2[k][1], off), VAdd(b2[k][2], off) >>]

-----------------------------------------------------------------------------
\* the words of a file: big-endian, numbers take two words, Inf is all ones
NumW(n) == IF n = Inf THEN <<-1, -1>> ELSE <<0, n>>
CatAll(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
SegWords(s) == NumW(s.m) \o NumW(Len(s.w)) \o s.w
ArrWords(a) == CatAll([i \in DOMAIN a.ser |-> NumW(a.ser[i])]) \o CatAll([i \in DOMAIN a.sh |-> NumW(a.sh[i])])
               \o NumW(a.fin) \o CatAll([k \in DOMAIN a.segs |-> SegWords(a.segs[k])])
FileWords(f) == CatAll([k \in DOMAIN f |-> ArrWords(f[k])])
=============================================================================
