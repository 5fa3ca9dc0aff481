-------------------------------- MODULE Loops --------------------------------
(***************************************************************************)
(* What loops over index regions visit, what boxes have in common, and the *)
(* weights of the trapezoidal rule.  Boxes travel as in ArrayMath.         *)
(***************************************************************************)
EXTENDS ArrayMath

\* concatenation of a sequence of sequences of equal length n
Flatten(q, n) == TLCEval([k \in 1..(Len(q) * n) |-> q[((k - 1) \div n) + 1][((k - 1) % n) + 1]])
\* every index of the region once, in row-major order
ElementLoop(s, e) == Flatten(BoxSeq(s, e), Len(s))
\* tiles of the region in row-major order, the ones at the end cut off
ChunkLoop(s, e, c) == LET t == Tiles(s, e, c) IN Flatten([k \in DOMAIN t |-> t[k][1] \o t[k][2]], 2 * Len(s))

Common(as, ash, bs, bsh) == BoxSet(as, VAdd(as, ash)) \cap BoxSet(bs, VAdd(bs, bsh))
\* boxes overlap iff they have an index in common, and the overlap is the set of common indices
BoxesOk(as, ash, bs, bsh, r, v) ==
  LET n == Len(as)
      s == SubSeq(v, 1, n)
      sh == SubSeq(v, n + 1, 2 * n)
      i == Common(as, ash, bs, bsh)
  IN /\ Len(v) = 2 * n
     /\ r = (IF i = {} THEN 0 ELSE 1)
     /\ r = 1 => (\A k \in 1..n : sh[k] >= 0 /\ sh[k] < 100) /\ BoxSet(s, VAdd(s, sh)) = i

\* weights times 1000 of point i of n
TrapezoidWeight(i, n) == IF i = 1 \/ i = n THEN 500 ELSE 1000
=============================================================================
