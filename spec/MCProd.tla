-------------------------------- MODULE MCProd --------------------------------
(***************************************************************************)
(* The implementation's way of producing a Green's function with several   *)
(* parallel jobs: every job stores the simulation chunks it owns (cuts,    *)
(* owner) sample by sample in a directory of its own, the first job merges *)
(* these, every job rebuilds its share of the partitions of the merged     *)
(* array (with a margin of Ov cells), the first job merges the rebuilt     *)
(* parts and removes the temporary files.  The jobs meet at barriers       *)
(* 0 .. 4; only those in Sync are in effect.                               *)
(*                                                                         *)
(* Checked for every interleaving: nothing is ever looked for that is not  *)
(* there (yet, or any more), the result holds every cell and sample        *)
(* exactly once, nothing temporary remains, and all jobs end.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Jobs,      \* number of jobs
          Cells, Samples,
          Part,      \* cells per partition
          Ov,
          Sync,      \* barriers in effect
          EmitOn

VARIABLES cuts, owner,     \* simulation chunk i ends before cell cuts[i] and belongs to job owner[i]
          pc, k,           \* place and progress of every job
          arrived,         \* barrier -> jobs that have arrived
          glob,            \* does the work directory exist?
          own,             \* job -> what it has stored so far
          jobdir,          \* job -> what it has handed over ({<<-1, 0>>}: nothing yet, or removed)
          merged, parts, out,
          late,            \* the last job to arrive at each barrier
          err
vars == <<cuts, owner, pc, k, arrived, glob, own, jobdir, merged, parts, out, late, err>>

J == 0..(Jobs - 1)
None == { << -1, 0 >> }
Asc(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
NP == (Cells + Part - 1) \div Part
P == 0..(NP - 1)
All == (0..(Cells - 1)) \X (0..(Samples - 1))
From(i) == IF i = 1 THEN 0 ELSE cuts[i - 1]
CellsOf(j) == UNION { From(i)..(cuts[i] - 1) : i \in { n \in DOMAIN cuts : owner[n] = j } }

Init == /\ \E S \in SUBSET (1..(Cells - 1)) : cuts = Asc(S \cup {Cells})
        /\ owner \in [DOMAIN cuts -> J]
        /\ pc = [j \in J |-> "prepare"] /\ k = [j \in J |-> 0]
        /\ arrived = [b \in 0..4 |-> {}] /\ late = [b \in 0..4 |-> 0]
        /\ glob = FALSE /\ own = [j \in J |-> {}] /\ jobdir = [j \in J |-> None]
        /\ merged = None /\ parts = [p \in P |-> None] /\ out = None /\ err = FALSE
conf == <<cuts, owner>>
files == <<glob, own, jobdir, merged, parts, out>>

Go(j, where) == pc' = [pc EXCEPT ![j] = where]
Wait(j, b, after) == /\ pc[j] = "wait" \o ToString(b)
                     /\ arrived' = [arrived EXCEPT ![b] = @ \cup {j}]
                     /\ late' = [late EXCEPT ![b] = IF j \in arrived[b] THEN @ ELSE j]
                     /\ IF b \in Sync /\ arrived'[b] # J THEN j \notin arrived[b] /\ UNCHANGED pc ELSE Go(j, after)
                     /\ UNCHANGED <<conf, k, files, err>>

Prepare(j) == /\ pc[j] = "prepare" /\ Go(j, "wait0")
              /\ glob' = (glob \/ j = 0)
              /\ UNCHANGED <<conf, k, arrived, own, jobdir, merged, parts, out, late, err>>
Calc(j) == /\ pc[j] = "calc" /\ k[j] < Samples
           /\ own' = [own EXCEPT ![j] = @ \cup { << c, k[j] >> : c \in CellsOf(j) }]
           /\ k' = [k EXCEPT ![j] = @ + 1]
           /\ UNCHANGED <<conf, pc, arrived, glob, jobdir, merged, parts, out, late, err>>
HandOver(j) == /\ pc[j] = "calc" /\ k[j] = Samples
               /\ err' = (err \/ ~glob)
               /\ jobdir' = [jobdir EXCEPT ![j] = own[j]] /\ own' = [own EXCEPT ![j] = {}]
               /\ Go(j, "wait1") /\ k' = [k EXCEPT ![j] = 0]
               /\ UNCHANGED <<conf, arrived, glob, merged, parts, out, late>>
\* the first job: import the directories one by one, then go on
Merge(j) == /\ pc[j] = "merge"
            /\ IF j # 0 THEN Go(j, "wait2") /\ UNCHANGED <<k, merged, jobdir, err>>
               ELSE IF k[j] < Jobs
                    THEN /\ err' = (err \/ jobdir[k[j]] = None)
                         /\ merged' = (merged \ None) \cup (jobdir[k[j]] \ None)
                         /\ jobdir' = [jobdir EXCEPT ![k[j]] = None]
                         /\ k' = [k EXCEPT ![j] = @ + 1] /\ UNCHANGED pc
                    ELSE k' = [k EXCEPT ![j] = 0] /\ Go(j, "wait2") /\ UNCHANGED <<merged, jobdir, err>>
            /\ UNCHANGED <<conf, arrived, glob, own, parts, out, late>>
PFrom(p) == p * Part
PTo(p) == Min(Cells, (p + 1) * Part)
Rebuild(j) == /\ pc[j] = "rebuild"
              /\ IF k[j] < NP
                 THEN /\ k' = [k EXCEPT ![j] = @ + 1] /\ UNCHANGED pc
                      /\ IF k[j] % Jobs = j
                         THEN LET p == k[j]
                                  seen == (Max(0, PFrom(p) - Ov)..(Min(Cells, PTo(p) + Ov) - 1)) \X (0..(Samples - 1))
                              IN /\ err' = (err \/ ~(seen \subseteq merged) \/ ~glob)
                                 /\ parts' = [parts EXCEPT ![p] = { x \in merged : PFrom(p) <= x[1] /\ x[1] < PTo(p) }]
                         ELSE UNCHANGED <<parts, err>>
                 ELSE k' = [k EXCEPT ![j] = 0] /\ Go(j, "wait3") /\ UNCHANGED <<parts, err>>
              /\ UNCHANGED <<conf, arrived, glob, own, jobdir, merged, out, late>>
Final(j) == /\ pc[j] = "final"
            /\ IF j # 0 THEN Go(j, "wait4") /\ UNCHANGED <<k, parts, out, err>>
               ELSE IF k[j] < NP
                    THEN /\ err' = (err \/ parts[k[j]] = None \/ (out \cap parts[k[j]]) \ None # {})
                         /\ out' = (out \ None) \cup (parts[k[j]] \ None)
                         /\ parts' = [parts EXCEPT ![k[j]] = None]
                         /\ k' = [k EXCEPT ![j] = @ + 1] /\ UNCHANGED pc
                    ELSE k' = [k EXCEPT ![j] = 0] /\ Go(j, "wait4") /\ UNCHANGED <<parts, out, err>>
            /\ UNCHANGED <<conf, arrived, glob, own, jobdir, merged, late>>
Clean(j) == /\ pc[j] = "clean" /\ Go(j, "done")
            /\ IF j = 0 THEN /\ glob' = FALSE /\ merged' = None
                             /\ err' = (err \/ \E i \in J : pc[i] \in {"calc", "rebuild"})
               ELSE UNCHANGED <<glob, merged, err>>
            /\ UNCHANGED <<conf, k, arrived, own, jobdir, parts, out, late>>
Step(j) == \/ Prepare(j) \/ Calc(j) \/ HandOver(j) \/ Merge(j) \/ Rebuild(j) \/ Final(j) \/ Clean(j)
           \/ Wait(j, 0, "calc") \/ Wait(j, 1, "merge") \/ Wait(j, 2, "rebuild") \/ Wait(j, 3, "final") \/ Wait(j, 4, "clean")
\* jobs that have arrived at a barrier go on once all have
Next == \E j \in J : Step(j) \/ (\E b \in 0..4 : /\ pc[j] = "wait" \o ToString(b) /\ j \in arrived[b] /\ arrived[b] = J
                                               /\ Go(j, << "calc", "merge", "rebuild", "final", "clean" >>[b + 1])
                                               /\ UNCHANGED <<conf, k, arrived, files, late, err>>)
Spec == Init /\ [][Next]_vars /\ \A j \in J : WF_vars(Step(j)) /\ WF_vars(Next)

Finished == \A j \in J : pc[j] = "done"
Inv == /\ ~err
       /\ Finished => out = All /\ ~glob /\ merged = None /\ \A j \in J : jobdir[j] = None
Ends == <>Finished
Emit == ~EmitOn \/ (\E j \in J : pc'[j] # "done") \/ PrintT(ToJson([hist |-> [cuts |-> cuts, owner |-> owner, late |-> late]]))
=============================================================================
