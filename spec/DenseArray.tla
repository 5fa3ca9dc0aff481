----------------------------- MODULE DenseArray -----------------------------
(***************************************************************************)
(* Dense arrays of vectors as mathematical objects.                        *)
(*                                                                         *)
(* A store is a record                                                     *)
(*   buf : buffer number -> [sh, d]   shape and contents (row-major, the   *)
(*         vector component fastest); U stands for an undefined value      *)
(*   han : handle -> [b, s, sh, own]  a handle denotes the box of shape sh *)
(*         at s of buffer b; arrays own their buffer (own = 1, s = 0),     *)
(*         views are boxes of somebody else's buffer                       *)
(*   n   : number of buffers so far                                        *)
(* All handles of one store have V components per element.                 *)
(***************************************************************************)
EXTENDS ArrayMath

U == 999999998      \* undefined
Empty == [buf |-> << >>, han |-> << >>, n |-> 0]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* contents of a box of a buffer
Cut(V, b, s, sh) ==
  TLCEval([k \in 1..(Prod(sh) * V) |->
     b.d[Flat(b.sh, VAdd(s, UnFlat(sh, (k - 1) \div V))) * V + ((k - 1) % V) + 1]])
Contents(V, m, h) == LET x == m.han[h] IN Cut(V, m.buf[x.b], x.s, x.sh)
ElemAt(V, m, h, x) == LET y == m.han[h] b == m.buf[y.b] f == Flat(b.sh, VAdd(y.s, x)) * V IN [c \in 1..V |-> b.d[f + c]]
\* contents of a buffer after the box (s, e) of it is overwritten: New(x, c) for component c of element x (relative to s)
Patch(V, b, s, e, New(_, _)) ==
  [b EXCEPT !.d = TLCEval([k \in DOMAIN b.d |->
      LET x == UnFlat(b.sh, (k - 1) \div V) IN
      IF InBox(s, e, x) THEN New(VSub(x, s), ((k - 1) % V) + 1) ELSE b.d[k]])]
Zero(v) == VConst(Len(v), 0)
ZeroOf(m, h) == Zero(m.han[h].sh)
\* the same for a box (s, e) of what a handle denotes
PatchH(V, m, h, s, e, New(_, _)) ==
  LET x == m.han[h] IN
  [m EXCEPT !.buf[x.b] = Patch(V, @, VAdd(x.s, s), VAdd(x.s, e), New)]

Owns(m, h) == h \in DOMAIN m.han /\ m.han[h].own = 1
Shared(m, h) == \E g \in DOMAIN m.han \ {h} : m.han[g].b = m.han[h].b
Known(m, h) == h \in DOMAIN m.han
\* a new buffer for handle h
Fresh(m, h, sh, d) ==
  [buf |-> Set(m.buf, m.n + 1, [sh |-> sh, d |-> d]),
   han |-> Set(m.han, h, [b |-> m.n + 1, s |-> Zero(sh), sh |-> sh, own |-> 1]), n |-> m.n + 1]
Const(V, sh, v) == [k \in 1..(Prod(sh) * V) |-> v]

\* operations
New(V, m, h, sh, v) == Fresh(m, h, sh, Const(V, sh, v))
Copy(V, m, h, g) == Fresh(m, h, m.han[g].sh, Contents(V, m, g))
\* an owner without views takes over shape and contents
Become(m, h, sh, d) == LET b == m.han[h].b IN
  [m EXCEPT !.buf[b] = [sh |-> sh, d |-> d], !.han[h].sh = sh]
Assign(V, m, h, g) == Become(m, h, m.han[g].sh, Contents(V, m, g))
FillBox(V, m, h, s, e, v) == PatchH(V, m, h, s, e, LAMBDA x, c : v)
FillAll(V, m, h, v) == FillBox(V, m, h, ZeroOf(m, h), m.han[h].sh, v)
FillFrom(V, m, h, g, is, ie, os) ==
  PatchH(V, m, h, os, VAdd(os, VSub(ie, is)), LAMBDA x, c : ElemAt(V, m, g, VAdd(is, x))[c])
FillColumn(V, m, h, os, d) ==
  LET n == Len(d) \div V
      k == Len(os)
      e == [i \in 1..k |-> IF i = k THEN os[i] + n ELSE os[i] + 1]
  IN PatchH(V, m, h, os, e, LAMBDA x, c : d[x[k] * V + c])
\* elements keep their values if the shape does not change, or if only the first extent decreases; otherwise they are undefined
Resize(V, m, h, sh) ==
  LET old == m.han[h].sh
      d == Contents(V, m, h)
      keep == old = sh \/ (sh[1] <= old[1] /\ \A i \in 2..Len(sh) : sh[i] = old[i])
  IN Become(m, h, sh, IF keep THEN SubSeq(d, 1, Prod(sh) * V) ELSE Const(V, sh, U))
ResizeFill(V, m, h, sh, v) == Become(m, h, sh, Const(V, sh, v))
SetAt(V, m, h, x, d) == PatchH(V, m, h, x, VAddS(x, 1), LAMBDA y, c : d[c])
View(m, h, g, s, e) == [m EXCEPT !.han = Set(@, h, [b |-> m.han[g].b, s |-> VAdd(m.han[g].s, s), sh |-> VSub(e, s), own |-> 0])]
Drop(m, h) == [m EXCEPT !.han = Del(@, h)]
Appendable(m, h, g, ax) == \A i \in DOMAIN m.han[h].sh : i # ax => m.han[h].sh[i] = m.han[g].sh[i]
AppendTo(V, m, h, g) ==
  Become(m, h, [m.han[h].sh EXCEPT ![1] = @ + m.han[g].sh[1]], Contents(V, m, h) \o Contents(V, m, g))
Swapped(V, m, h, g, i, j) ==
  LET sh == VSwap(m.han[g].sh, i, j)
      d == Contents(V, m, g)
      old == m.han[g].sh
  IN Become(m, h, sh, TLCEval([k \in 1..(Prod(sh) * V) |-> d[Flat(old, VSwap(UnFlat(sh, (k - 1) \div V), i, j)) * V + ((k - 1) % V) + 1]]))
AddBox(V, m, h, s, e, v) == PatchH(V, m, h, s, e, LAMBDA x, c : LET o == ElemAt(V, m, h, VAdd(s, x))[c] IN IF o = U THEN U ELSE o + v)

\* answers
AllNull(V, m, h, r) ==
  LET d == Contents(V, m, h) IN
  IF \E k \in DOMAIN d : d[k] # 0 /\ d[k] # U THEN r = 0
  ELSE IF \E k \in DOMAIN d : d[k] = U THEN r \in {0, 1} ELSE r = 1
NullAt(V, m, h, x, r) ==
  LET d == ElemAt(V, m, h, x) IN
  IF \E k \in DOMAIN d : d[k] # 0 /\ d[k] # U THEN r = 0
  ELSE IF \E k \in DOMAIN d : d[k] = U THEN r \in {0, 1} ELSE r = 1
Same(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = U \/ a[k] = b[k]
\* elements of a box in the order of the box: values, or indices followed by values
Walk(V, m, h, s, e) ==
  IF EmptyBox(s, e) THEN <<>> ELSE LET x == m.han[h] IN Cut(V, m.buf[x.b], VAdd(x.s, s), VSub(e, s))
WalkInd(V, m, h, s, e) ==
  LET n == Len(s)
      q == BoxSeq(s, e)
      w == n + V
  IN TLCEval([k \in 1..(Len(q) * w) |->
       LET x == q[((k - 1) \div w) + 1]
           j == (k - 1) % w
       IN IF j < n THEN x[j + 1] ELSE ElemAt(V, m, h, x)[j - n + 1]])

-----------------------------------------------------------------------------
\* Downsampling: an array that starts at index s, by factors f.  Kept are the elements whose index is a multiple of f.
DownStart(s, f) == [i \in DOMAIN s |-> (s[i] + f[i] - 1) \div f[i]]
DownEnd(s, sh, f) == [i \in DOMAIN s |-> (s[i] + sh[i] - 1) \div f[i] + 1]
DownShape(s, sh, f) == LET a == DownStart(s, f) b == DownEnd(s, sh, f) IN [i \in DOMAIN s |-> IF b[i] > a[i] THEN b[i] - a[i] ELSE 0]
\* the definition of the indices kept, to be compared with the formulas
Kept(s, sh, f) == { x \in BoxSet(s, VAdd(s, sh)) : \A i \in DOMAIN s : x[i] % f[i] = 0 }
Down(V, m, h, g, s, f) ==
  LET sh == m.han[g].sh
      a == DownStart(s, f)
      o == DownShape(s, sh, f)
  IN Become(m, h, o, TLCEval([k \in 1..(Prod(o) * V) |->
       LET x == UnFlat(o, (k - 1) \div V)
       IN ElemAt(V, m, g, [i \in DOMAIN x |-> (x[i] + a[i]) * f[i] - s[i]])[((k - 1) % V) + 1]]))
=============================================================================
