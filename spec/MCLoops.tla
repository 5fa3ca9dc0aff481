------------------------------- MODULE MCLoops -------------------------------
(***************************************************************************)
(* The nested chunk loop of the implementation as a state machine (one     *)
(* step per comparison of a loop condition), for every region and chunk    *)
(* size in a small range.  It ends, and what it visited is what Loops      *)
(* prescribes; the element loop is the case of chunks of size one.         *)
(***************************************************************************)
EXTENDS Loops, Json
CONSTANTS D, Lo, MaxE, MaxC, EmitOn
VARIABLES b, e, c, cb, ce, lev, out
vars == <<b, e, c, cb, ce, lev, out>>
Low == -Lo
Vs(S) == [1..D -> S]
Tup(f) == [i \in 1..D |-> f[i]]
Init == /\ b \in { Tup(f) : f \in Vs(Low..(Low + 1)) } /\ e \in { Tup(f) : f \in Vs(Low..MaxE) } /\ c \in { Tup(f) : f \in Vs(1..MaxC) }
        /\ cb = b /\ ce = VConst(D, 99) /\ lev = 1 /\ out = <<>>
Min2(x, y) == IF x < y THEN x ELSE y
Body == /\ lev > 0 /\ cb[lev] < e[lev]
        /\ LET x == Min2(cb[lev] + c[lev], e[lev]) IN
           /\ ce' = [ce EXCEPT ![lev] = x]
           /\ IF lev = D THEN out' = Append(out, cb \o [ce EXCEPT ![lev] = x]) /\ cb' = [cb EXCEPT ![lev] = x] /\ lev' = lev
              ELSE out' = out /\ cb' = [cb EXCEPT ![lev + 1] = b[lev + 1]] /\ lev' = lev + 1
        /\ UNCHANGED <<b, e, c>>
Leave == /\ lev > 0 /\ ~(cb[lev] < e[lev]) /\ lev' = lev - 1
         /\ cb' = IF lev = 1 THEN cb ELSE [cb EXCEPT ![lev - 1] = ce[lev - 1]]
         /\ UNCHANGED <<b, e, c, ce, out>>
Next == Body \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == lev = 0
Right == Done => /\ Flatten(out, 2 * D) = ChunkLoop(b, e, c)
                 /\ (c = VConst(D, 1)) => Flatten([k \in DOMAIN out |-> SubSeq(out[k], 1, D)], D) = ElementLoop(b, e)
\* the tiles are what the property asks for: they are not empty, at most of size c, disjoint, and cover the region
Tiling == lev = 1 /\ out = <<>> =>
   LET t == Tiles(b, e, c) IN
   /\ \A k \in DOMAIN t : \A i \in 1..D : t[k][1][i] < t[k][2][i] /\ t[k][2][i] - t[k][1][i] <= c[i]
                          /\ (t[k][2][i] - t[k][1][i] < c[i] => t[k][2][i] = e[i])
   /\ \A j, k \in DOMAIN t : j # k => ~BoxesMeet(t[j][1], t[j][2], t[k][1], t[k][2])
   /\ UNION { BoxSet(t[k][1], t[k][2]) : k \in DOMAIN t } = BoxSet(b, e)
Ends == <>Done
Emit == ~EmitOn \/ ~(lev' = 0) \/ PrintT(ToJson([hist |-> << [b |-> b, e |-> e, c |-> c] >>]))
=============================================================================
