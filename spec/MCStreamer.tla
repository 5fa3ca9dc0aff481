------------------------------ MODULE MCStreamer ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Streamer for small shapes: every layout,      *)
(* every sequence of extensions along any axis in either mode.  Stored     *)
(* arrays always read back as the concatenation of what was written; the   *)
(* rule for accepting extensions is sound, and complete up to the arrays   *)
(* it declares final because of unequal chunks.                            *)
(***************************************************************************)
EXTENDS Streamer, TLC, Json

CONSTANTS D, MaxSh, MaxSer, MaxOps, Marks, Patterns, EmitOn

VARIABLES a, val, marked, hist
vars == <<a, val, marked, hist>>

Shapes == [1..D -> 1..MaxSh]
Sers == { s \in [1..D -> (1..MaxSer) \cup {Inf}] : WellFormed(s) }
Tuple(f) == [i \in 1..D |-> f[i]]
\* vectors of one word; element values tell positions apart, patterns put zeros in
Fill(sh, p, base) == [k \in 1..Prod(sh) |-> << IF p = 0 THEN base + k ELSE IF p = 1 THEN 0 ELSE IF (k + base) % p = 0 THEN base + k ELSE 0 >>]
Init == \E sh \in Shapes, ser \in Sers, m \in {1, 2}, p \in Patterns :
          /\ a = Store(Tuple(sh), Tuple(ser), m, Fill(Tuple(sh), p, 10))
          /\ val = Fill(Tuple(sh), p, 10) /\ marked = FALSE
          /\ hist = << [op |-> "ser", sh |-> Tuple(sh), ser |-> Tuple(ser), m |-> m, p |-> p, ax |-> 0] >>
Log(op, sh, m, p, ax) == hist' = Append(hist, [op |-> op, sh |-> sh, ser |-> <<>>, m |-> m, p |-> p, ax |-> ax])
App == \E ax \in 1..D, n \in 1..MaxSh, m \in {1, 2}, p \in Patterns :
         LET sh == [a.sh EXCEPT ![ax] = n]
             d == Fill(sh, p, 100 * Len(hist))
         IN /\ IF Extendable(a, ax, sh)
               THEN a' = Extend(a, ax, sh, m, d) /\ val' = Joined(a.sh, val, ax, sh, d)
               ELSE UNCHANGED <<a, val>>
            /\ Log("app", sh, m, p, ax) /\ UNCHANGED marked
Bad == \E ax, j \in 1..D : LET sh == [a.sh EXCEPT ![j] = @ + 1] IN
         /\ ax # j /\ ~Extendable(a, ax, sh) /\ Log("app", sh, 1, 0, ax) /\ UNCHANGED <<a, val, marked>>
Fin == Marks /\ ~marked /\ a' = Finalize(a) /\ marked' = TRUE /\ UNCHANGED val /\ Log("fin", a.sh, 0, 0, 0)
Next == Len(hist) <= MaxOps /\ (App \/ Bad \/ Fin)
Spec == Init /\ [][Next]_vars

Reads == Load(a, 1) = val
Sound == \A ax \in 1..D, n \in 1..MaxSh :
           LET sh == [a.sh EXCEPT ![ax] = n] IN
           /\ Extendable(a, ax, sh) => Representable(a, ax, sh)
           /\ Representable(a, ax, sh) /\ a.fin = 0 /\ a.ser[ax] # Inf => Extendable(a, ax, sh)
SegsOk == Consistent(a, 1) /\ (marked => a.fin = 1)
Inv == Reads /\ Sound /\ SegsOk
Emit == ~EmitOn \/ PrintT(ToJson([hist |-> hist']))
=============================================================================
