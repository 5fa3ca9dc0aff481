------------------------------ MODULE MCShower ------------------------------
(***************************************************************************)
(* The walk through the ice as the code performs it: first the number of   *)
(* points is counted, then the points are visited again while a pointer    *)
(* into the profile only moves forward.  For all small profiles the walk   *)
(* never leaves the profile and gives the points and charges of Shower.    *)
(***************************************************************************)
EXTENDS Shower, FiniteSets, TLC
CONSTANTS MaxG, MaxQ, Steps

Increasing == { s \in UNION { [1..n -> 1..MaxG] : n \in 1..3 } : \A i \in 1..Len(s) - 1 : s[i] < s[i + 1] }
VARIABLES p, k, phase, n, i, x, at, out
vars == << p, k, phase, n, i, x, at, out >>

Init == /\ \E g \in Increasing : \E q \in [1..Len(g) -> 0..MaxQ] : p = [had |-> 0, en |-> 1, g |-> g, q |-> q]
        /\ k \in Steps
        /\ phase = "count" /\ n = 0 /\ i = 0 /\ x = 0 /\ at = 1 /\ out = << >>
Last == p.g[Len(p.g)]
Count == /\ phase = "count" /\ x < Last
         /\ x' = x + 16 * k /\ n' = n + 1 /\ UNCHANGED << p, k, phase, i, at, out >>
First == /\ phase = "count" /\ x >= Last
         /\ phase' = "walk" /\ x' = 0 /\ i' = 1 /\ out' = << << p.q[1], 1 >> >> /\ UNCHANGED << p, k, n, at >>
Advance == /\ phase = "walk" /\ i < n
           /\ x' = x + 16 * k
           /\ phase' = "seek" /\ UNCHANGED << p, k, n, i, at, out >>
Seek == /\ phase = "seek" /\ at <= Len(p.g) /\ p.g[at] < x
        /\ at' = at + 1 /\ UNCHANGED << p, k, phase, n, i, x, out >>
Emit == /\ phase = "seek" /\ ~(at <= Len(p.g) /\ p.g[at] < x)
        /\ out' = Append(out, IF at = 1 THEN << p.q[1], 1 >>
                              ELSE LET w == p.g[at] - p.g[at - 1] IN << p.q[at - 1] * w + (p.q[at] - p.q[at - 1]) * (x - p.g[at - 1]), w >>)
        /\ i' = i + 1 /\ phase' = "walk" /\ UNCHANGED << p, k, n, x, at >>
Done == phase = "walk" /\ i >= n /\ phase' = "done" /\ UNCHANGED << p, k, n, i, x, at, out >>
Next == Count \/ First \/ Advance \/ Seek \/ Emit \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InProfile == at <= Len(p.g)
Right == phase = "done" => /\ n = Points(p, k) /\ Len(out) = n
                           /\ \A j \in 1..n : out[j] = Charge(p, Traversed(k, j - 1))
\* interpolated charges stay between the smallest and the largest of the profile
Between == \A j \in DOMAIN out : \E lo, hi \in DOMAIN p.q : p.q[lo] * out[j][2] <= out[j][1] /\ out[j][1] <= p.q[hi] * out[j][2]
Ends == <>(phase = "done")
=============================================================================
