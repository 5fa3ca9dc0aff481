------------------------------- MODULE MCSplit -------------------------------
(***************************************************************************)
(* Splitting n quadrature points into consecutive blocks in every possible *)
(* way; the rule gives each block weights knowing only its own range and   *)
(* the total.                                                              *)
(***************************************************************************)
EXTENDS Loops, Json
CONSTANTS MaxN, EmitOn
VARIABLES n, at, w, hist
vars == <<n, at, w, hist>>
\* the rule of the implementation for the block [i, j)
Block(i, j) == [k \in 1..(j - i) |-> IF (i = 0 /\ k = 1) \/ (j = n /\ k = j - i) THEN 500 ELSE 1000]
Init == n \in 2..MaxN /\ at = 0 /\ w = <<>> /\ hist = <<>>
Take == at < n /\ \E j \in (at + 1)..n : at' = j /\ w' = w \o Block(at, j) /\ hist' = Append(hist, j - at) /\ UNCHANGED n
Spec == Init /\ [][Take]_vars
Right == \A k \in 1..at : w[k] = TrapezoidWeight(k, n)
Emit == ~EmitOn \/ at' < n \/ PrintT(ToJson([hist |-> << [n |-> n, blocks |-> hist'] >>]))
=============================================================================
