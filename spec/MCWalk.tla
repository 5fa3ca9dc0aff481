-------------------------------- MODULE MCWalk --------------------------------
(***************************************************************************)
(* The implementation's way of computing a signal, as a state machine: the *)
(* integration points in blocks of IB, the samples in blocks of SB, for    *)
(* every point the first causal sample of the block, and from there a walk *)
(* over the chunks (along t) that hold the requested samples.  Checked     *)
(* against the definition: every causal pair (point, sample) that lies     *)
(* inside is accumulated exactly once, pairs outside never, and the strict *)
(* mode stops iff there is a pair outside.                                 *)
(*                                                                         *)
(* Time is counted in units of one sixteenth of a grid cell.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Total,      \* cells of the grid along t
          MaxPts,     \* integration points
          MaxNs,      \* samples
          IB, SB,     \* block sizes
          Samps,      \* distances between samples
          Steps,      \* times between integration points
          Offs, Lead, \* time of the first sample, relative to the first integration point: an element of Offs less Lead
          EmitOn

VARIABLES cuts,       \* ends of the chunks (strictly increasing, the last one is Total)
          nulls,      \* chunks without content
          pts, ns, samp, step, off, mode,
          ib, sb, ip, \* current integration block, sample block, point in block
          cur,        \* next sample (relative to the start of the request), -1: none requested
          req,        \* [from, n]: samples requested for this point and block
          hits,       \* <<point, sample>> -> number of times accumulated
          pc
vars == <<cuts, nulls, pts, ns, samp, step, off, mode, ib, sb, ip, cur, req, hits, pc>>
conf == <<cuts, nulls, pts, ns, samp, step, off, mode>>

Asc(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Ceil(a, b) == (a + b - 1) \div b
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a

Init ==
  /\ \E S \in SUBSET (1..(Total - 1)) : cuts = Asc(S \cup {Total})
  /\ nulls \in { {}, {1}, {2} }
  /\ pts \in 1..MaxPts /\ ns \in 1..MaxNs /\ samp \in Samps /\ step \in Steps /\ off \in { o - Lead : o \in Offs } /\ mode \in {0, 1}
  /\ ib = 0 /\ sb = 0 /\ ip = 0 /\ cur = -1 /\ req = [from |-> 0, n |-> 0]
  /\ hits = [x \in (0..(MaxPts - 1)) \X (0..(MaxNs - 1)) |-> 0]
  /\ pc = "point"

\* relative time of the sample j and the point i
Rel(i, j) == off + j * samp - i * step
ISize == Min(IB, pts - ib)
SEnd == Min(sb + SB, ns)
NextSb == IF sb + SB < ns THEN sb' = sb + SB /\ ib' = ib /\ ip' = 0 /\ pc' = "point"
          ELSE sb' = 0 /\ ip' = 0 /\ ib' = ib + IB /\ pc' = IF ib + IB < pts THEN "point" ELSE "done"
\* set up one point
Point ==
  /\ pc = "point"
  /\ UNCHANGED <<conf, hits>>
  /\ IF ip >= ISize THEN NextSb /\ UNCHANGED <<cur, req>>
     ELSE LET i == ib + ip
              causal == Max(0, Ceil(i * step - off, samp))
              from == Max(sb, Min(causal, SEnd))
          IN IF SEnd - from = 0 THEN NextSb /\ UNCHANGED <<cur, req>>                     \* no later point contributes either
             ELSE req' = [from |-> from, n |-> SEnd - from] /\ cur' = 0 /\ pc' = "walk" /\ UNCHANGED <<ib, sb, ip>>
\* one chunk
Walk ==
  /\ pc = "walk"
  /\ UNCHANGED <<conf, ib, sb, req>>
  /\ IF cur >= req.n THEN pc' = "point" /\ ip' = ip + 1 /\ UNCHANGED <<cur, hits>>
     ELSE LET i == ib + ip
              t == Rel(i, req.from + cur)
              cell == t \div 16
          IN IF cell >= Total
             THEN IF mode = 0 THEN pc' = "error" /\ UNCHANGED <<cur, hits, ip>>
                  ELSE cur' = cur + 1 /\ UNCHANGED <<hits, ip, pc>>
             ELSE LET c == CHOOSE k \in DOMAIN cuts : cell < cuts[k] /\ (k = 1 \/ cell >= cuts[k - 1])
                      many == (16 * cuts[c] - t) \div samp + 1                       \* up to and including the end of the chunk
                      n == Min(many, req.n - cur)
                  IN /\ hits' = [x \in DOMAIN hits |->
                                   IF x[1] = i /\ x[2] >= req.from + cur /\ x[2] < req.from + cur + n THEN hits[x] + 1 ELSE hits[x]]
                     /\ cur' = cur + n /\ UNCHANGED <<ip, pc>>
Next == Point \/ Walk
Spec == Init /\ [][Next]_vars

Pairs == (0..(pts - 1)) \X (0..(ns - 1))
Causal(x) == Rel(x[1], x[2]) >= 0
In(x) == Rel(x[1], x[2]) < 16 * Total
Edge(x) == Rel(x[1], x[2]) = 16 * Total
Done == pc = "done" =>
  \A x \in DOMAIN hits :
    IF x \in Pairs /\ Causal(x) THEN IF In(x) THEN hits[x] = 1 ELSE IF Edge(x) THEN hits[x] \in {0, 1} ELSE hits[x] = 0
    ELSE hits[x] = 0
Strict == /\ pc = "error" => mode = 0 /\ \E x \in Pairs : Causal(x) /\ ~In(x)
          /\ pc = "done" /\ mode = 0 => \A x \in Pairs : Causal(x) => In(x) \/ Edge(x)
Inv == Done /\ Strict
\* terminates: every behaviour ends in done or error
Ends == <>(pc \in {"done", "error"})
Fair == Spec /\ WF_vars(Next)
Emit == ~EmitOn \/ ~(pc' \in {"done", "error"}) \/ pc = pc'
        \/ PrintT(ToJson([hist |-> [cuts |-> cuts, nulls |-> nulls, pts |-> pts, ns |-> ns, samp |-> samp, step |-> step, off |-> off, mode |-> mode, end |-> pc']]))
=============================================================================
