------------------------------- MODULE MCDense -------------------------------
(***************************************************************************)
(* The representation of dense arrays in the implementation (flat memory   *)
(* that several handles may share, each with strides and an offset,        *)
(* operations that work row by row on contiguous stretches), next to the   *)
(* mathematical arrays of DenseArray, for all short sequences of           *)
(* operations on up to three handles.  Both always agree.                  *)
(***************************************************************************)
EXTENDS DenseArray, Json

CONSTANTS Shapes, MaxOps, EmitOn
VARIABLES m,      \* DenseArray
          mem,    \* buffer -> flat memory
          hd,     \* handle -> [b, sh, str, off]
          hist
vars == <<m, mem, hd, hist>>
ShapeSet == { << x \div 10, x % 10 >> : x \in Shapes }
Own == {1, 2}
Vw == 3

Str(sh) == << sh[2], 1 >>
At(h, x) == h.off + x[1] * h.str[1] + x[2] * h.str[2] + 1
Tok(k) == 100 * (Len(hist) + 1) + k
Log(e) == hist' = Append(hist, e)
Resized(old, n) == [k \in 1..n |-> IF k <= Len(old) THEN old[k] ELSE U]
\* copying the box (is, ie) of handle s to os of handle t, row by row; memory M
RECURSIVE CopyRows(_, _, _, _, _, _, _)
CopyRows(M, s, t, is, ie, os, i) ==
  IF i >= ie[1] THEN M
  ELSE LET a == At(s, << i, is[2] >>)
           b == At(t, << os[1] + i - is[1], os[2] >>)
           n == ie[2] - is[2]
           src == M[s.b]
       IN CopyRows([M EXCEPT ![t.b] = [k \in DOMAIN @ |-> IF k >= b /\ k < b + n THEN src[a + k - b] ELSE @[k]]], s, t, is, ie, os, i + 1)
RECURSIVE FillRows(_, _, _, _, _, _)
FillRows(M, t, s, e, v, i) ==
  IF i >= e[1] THEN M
  ELSE LET b == At(t, << i, s[2] >>) n == e[2] - s[2] IN
       FillRows([M EXCEPT ![t.b] = [k \in DOMAIN @ |-> IF k >= b /\ k < b + n THEN v ELSE @[k]]], t, s, e, v, i + 1)
Z == <<0, 0>>
Owner(sh, b) == [b |-> b, sh |-> sh, str |-> Str(sh), off |-> 0]
Free(h) == h \notin DOMAIN hd
Alone(h) == h \in DOMAIN hd /\ m.han[h].own = 1 /\ ~Shared(m, h)
Subs(sh) == { x \in ((0..(sh[1] - 1)) \X (0..(sh[2] - 1))) \X ((1..sh[1]) \X (1..sh[2])) : VLess(x[1], x[2]) }

Init == m = Empty /\ mem = << >> /\ hd = << >> /\ hist = << >>
\* a new array whose elements are set one by one
DoNew(h, sh) == /\ Free(h)
                /\ LET d == [k \in 1..Prod(sh) |-> Tok(k)] IN
                   /\ m' = Fresh(m, h, sh, d)
                   /\ mem' = Set(mem, m.n + 1, d)
                /\ hd' = Set(hd, h, Owner(sh, m.n + 1))
                /\ Log([op |-> "DNewV", h |-> h, sh |-> sh, d |-> Tok(0)])
DoCopy(h, g) == /\ Free(h) /\ g \in DOMAIN hd
                /\ m' = Copy(1, m, h, g)
                /\ LET t == Owner(hd[g].sh, m.n + 1) IN
                   /\ mem' = CopyRows(Set(mem, m.n + 1, Const(1, t.sh, U)), hd[g], t, Z, t.sh, Z, 0)
                   /\ hd' = Set(hd, h, t)
                /\ Log([op |-> "DCopy", h |-> h, g |-> g])
DoAssign(h, g) == /\ Alone(h) /\ g \in DOMAIN hd /\ g # h
                  /\ m' = Assign(1, m, h, g)
                  /\ LET t == Owner(hd[g].sh, hd[h].b) IN
                     /\ mem' = CopyRows([mem EXCEPT ![t.b] = Resized(@, Prod(t.sh))], hd[g], t, Z, t.sh, Z, 0)
                     /\ hd' = [hd EXCEPT ![h] = t]
                  /\ Log([op |-> "DAssign", h |-> h, g |-> g])
DoResize(h, sh) == /\ Alone(h) /\ sh # hd[h].sh
                   /\ m' = Resize(1, m, h, sh)
                   /\ mem' = [mem EXCEPT ![hd[h].b] = Resized(@, Prod(sh))]
                   /\ hd' = [hd EXCEPT ![h] = Owner(sh, @.b)]
                   /\ Log([op |-> "DResize", h |-> h, how |-> 0, val |-> 0, sh |-> sh])
DoView(g) == /\ Free(Vw) /\ g \in DOMAIN hd
             /\ \E x \in Subs(hd[g].sh) :
                  /\ m' = View(m, Vw, g, x[1], x[2])
                  /\ hd' = Set(hd, Vw, [b |-> hd[g].b, sh |-> VSub(x[2], x[1]), str |-> hd[g].str, off |-> At(hd[g], x[1]) - 1])
                  /\ Log([op |-> "DView", h |-> Vw, g |-> g, s |-> x[1], e |-> x[2]])
             /\ UNCHANGED mem
DoFill(h) == /\ h \in DOMAIN hd
             /\ \E x \in Subs(hd[h].sh), v \in {0, Tok(0)} :
                  /\ m' = FillBox(1, m, h, x[1], x[2], v)
                  /\ mem' = FillRows(mem, hd[h], x[1], x[2], v, x[1][1])
                  /\ Log([op |-> "DFill", h |-> h, s |-> x[1], e |-> x[2], val |-> v])
             /\ UNCHANGED hd
DoFrom(h, g) == /\ h \in DOMAIN hd /\ g \in DOMAIN hd /\ hd[h].b # hd[g].b
                /\ \E x \in Subs(hd[g].sh) : \E o \in { y[1] : y \in Subs(hd[h].sh) } :
                     /\ VLeq(VAdd(o, VSub(x[2], x[1])), hd[h].sh)
                     /\ m' = FillFrom(1, m, h, g, x[1], x[2], o)
                     /\ mem' = CopyRows(mem, hd[g], hd[h], x[1], x[2], o, x[1][1])
                     /\ Log([op |-> "DFrom", h |-> h, g |-> g, is |-> x[1], ie |-> x[2], os |-> o])
                /\ UNCHANGED hd
DoAppend(h, g) == /\ Alone(h) /\ g \in DOMAIN hd /\ g # h /\ Appendable(m, h, g, 1) /\ hd[h].sh[1] + hd[g].sh[1] <= 4
                  /\ m' = AppendTo(1, m, h, g)
                  /\ LET sh == << hd[h].sh[1] + hd[g].sh[1], hd[h].sh[2] >>
                         t == Owner(sh, hd[h].b)
                     IN /\ mem' = CopyRows([mem EXCEPT ![t.b] = Resized(@, Prod(sh))], hd[g], t, Z, hd[g].sh, << hd[h].sh[1], 0 >>, 0)
                        /\ hd' = [hd EXCEPT ![h] = t]
                  /\ Log([op |-> "DApp", h |-> h, g |-> g, ax |-> 1, how |-> Len(hist) % 2])
DoSwap(h, g) == /\ Alone(h) /\ g \in DOMAIN hd /\ g # h
                /\ m' = Swapped(1, m, h, g, 1, 2)
                /\ LET s == hd[g]
                       t == Owner(VSwap(s.sh, 1, 2), hd[h].b)
                   IN /\ mem' = [mem EXCEPT ![t.b] = [k \in 1..Prod(t.sh) |-> LET y == UnFlat(t.sh, k - 1) IN mem[s.b][At(s, VSwap(y, 1, 2))]]]
                      /\ hd' = [hd EXCEPT ![h] = t]
                /\ Log([op |-> "DSwap", h |-> h, g |-> g, i |-> 1, j |-> 2])
DoDrop(h) == /\ h \in DOMAIN hd /\ m' = Drop(m, h) /\ hd' = Del(hd, h) /\ UNCHANGED mem /\ Log([op |-> "DDrop", h |-> h])

Next == /\ Len(hist) < MaxOps
        /\ IF hist = <<>> THEN \E sh \in ShapeSet : DoNew(1, sh)
           ELSE \/ \E h \in Own : (\E sh \in ShapeSet : DoNew(h, sh) \/ DoResize(h, sh)) \/ (\E g \in 1..3 : DoCopy(h, g) \/ DoAssign(h, g) \/ DoAppend(h, g) \/ DoSwap(h, g))
                \/ \E h \in 1..3 : DoFill(h) \/ DoDrop(h) \/ (\E g \in 1..3 : DoFrom(h, g))
                \/ \E g \in Own : DoView(g)
Spec == Init /\ [][Next]_vars
Agree == \A h \in DOMAIN hd :
           LET c == Contents(1, m, h) IN
           /\ hd[h].sh = m.han[h].sh
           /\ \A k \in DOMAIN c : c[k] = U \/ mem[hd[h].b][At(hd[h], UnFlat(hd[h].sh, k - 1))] = c[k]
Emit == ~EmitOn \/ PrintT(ToJson([hist |-> hist']))
=============================================================================
