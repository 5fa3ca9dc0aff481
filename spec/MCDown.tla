-------------------------------- MODULE MCDown --------------------------------
(***************************************************************************)
(* Downsampling piece by piece: an array that starts at s is cut into      *)
(* pieces (by a grid of cuts), every piece is downsampled on its own.      *)
(* The formulas agree with the definition (Kept), and the pieces together  *)
(* are the downsampled whole, without overlap.                             *)
(***************************************************************************)
EXTENDS DenseArray, Json
CONSTANTS D, MaxS, MaxSh, MaxF, EmitOn
VARIABLES s, sh, f, cuts, ok
vars == <<s, sh, f, cuts, ok>>
Tup(g) == [i \in 1..D |-> g[i]]
\* cuts per axis: a set of interior positions
Init == /\ s \in { Tup(g) : g \in [1..D -> 0..MaxS] } /\ sh \in { Tup(g) : g \in [1..D -> 1..MaxSh] }
        /\ f \in { Tup(g) : g \in [1..D -> 1..MaxF] }
        /\ cuts = <<>> /\ ok = 0
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN << x >> \o Sorted(S \ {x})
Choose == /\ ok = 0 /\ ok' = 1 /\ UNCHANGED <<s, sh, f>>
          /\ \E g \in [1..D -> SUBSET (1..(MaxSh - 1))] :
               /\ \A i \in 1..D : \A x \in g[i] : x < sh[i]
               /\ cuts' = [i \in 1..D |-> << 0 >> \o Sorted(g[i]) \o << sh[i] >>]
Spec == Init /\ [][Choose]_vars
Npieces == [i \in 1..D |-> Len(cuts[i]) - 1]
PieceStart(t) == [i \in 1..D |-> s[i] + cuts[i][t[i] + 1]]
PieceShape(t) == [i \in 1..D |-> cuts[i][t[i] + 2] - cuts[i][t[i] + 1]]
Pieces == BoxSet(VConst(D, 0), Npieces)
Box(p, q) == BoxSet(DownStart(p, f), VAdd(DownStart(p, f), DownShape(p, q, f)))
Formula == { [i \in 1..D |-> x[i] * f[i]] : x \in Box(s, sh) } = Kept(s, sh, f)
Together == ok = 1 => /\ UNION { Box(PieceStart(t), PieceShape(t)) : t \in Pieces } = Box(s, sh)
                      /\ \A t, u \in Pieces : t # u => Box(PieceStart(t), PieceShape(t)) \cap Box(PieceStart(u), PieceShape(u)) = {}
Emit == ~EmitOn \/ PrintT(ToJson([hist |-> << [s |-> s, sh |-> sh, f |-> f, cuts |-> cuts'] >>]))
=============================================================================
