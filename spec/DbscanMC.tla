------------------------------ MODULE DbscanMC ------------------------------
(***************************************************************************)
(* The clustering as an algorithm (scan for unvisited cores, expand each   *)
(* along its neighbourhoods) together with the predictive life cycle.      *)
(* Border: neighbours that are no cores join the cluster (FALSE: only rows *)
(* that expand do - how the code once did it; TLC then refutes Right).     *)
(* Drop: a non-predictive training forgets the data kept for prediction    *)
(* (FALSE: they stay - TLC then refutes Fresh).                            *)
(***************************************************************************)
EXTENDS Dbscan, TLC
CONSTANTS N, G, Trainings, Border, Drop
VARIABLES x, e2, m, pred, lab, seen, todo, cur, kept, runs, phase
vars == <<x, e2, m, pred, lab, seen, todo, cur, kept, runs, phase>>
\* ACTIONS Train Noise Found Grow Finish Toggle

Points == [1..1 -> 0..G]
Init == /\ x = <<>> /\ lab = <<>> /\ seen = {} /\ todo = <<>> /\ cur = 0 /\ kept = <<>> /\ runs = 0
        /\ pred = FALSE /\ e2 \in {2, 5} /\ m \in 1..3 /\ phase = "idle"
Toggle == phase = "idle" /\ pred' = ~pred /\ UNCHANGED <<x, e2, m, lab, seen, todo, cur, kept, runs, phase>>
Train == /\ phase = "idle" /\ runs < Trainings
         /\ x' \in UNION {[1..n -> Points] : n \in 1..N}
         /\ lab' = [i \in Rows(x') |-> -1] /\ seen' = {} /\ todo' = <<>> /\ cur' = -1 /\ phase' = "scan" /\ runs' = runs + 1
         /\ UNCHANGED <<e2, m, pred, kept>>
First == Min(Rows(x) \ seen)
Scanning == phase = "scan" /\ todo = <<>> /\ seen # Rows(x)
IsCore(i) == Cardinality(Near(x, e2, i)) >= m
InOrder(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Noise == Scanning /\ ~IsCore(First) /\ seen' = seen \union {First} /\ UNCHANGED <<x, e2, m, pred, lab, todo, cur, kept, runs, phase>>
Found == /\ Scanning /\ IsCore(First)
         /\ seen' = seen \union {First} /\ cur' = cur + 1
         /\ lab' = [lab EXCEPT ![First] = cur + 1] /\ todo' = InOrder(Near(x, e2, First))
         /\ UNCHANGED <<x, e2, m, pred, kept, runs, phase>>
Grow == /\ phase = "scan" /\ todo # <<>>
        /\ LET i == Head(todo) IN
           /\ lab' = IF lab[i] = -1 /\ (Border \/ (i \notin seen /\ IsCore(i))) THEN [lab EXCEPT ![i] = cur] ELSE lab
           /\ todo' = (IF i \notin seen /\ IsCore(i) THEN InOrder(Near(x, e2, i)) ELSE <<>>) \o Tail(todo)
           /\ seen' = seen \union {i}
        /\ UNCHANGED <<x, e2, m, pred, cur, kept, runs, phase>>
Finish == /\ phase = "scan" /\ todo = <<>> /\ seen = Rows(x)
          /\ kept' = IF pred THEN x ELSE IF Drop THEN <<>> ELSE kept
          /\ phase' = "idle" /\ UNCHANGED <<x, e2, m, pred, lab, seen, todo, cur, runs>>
Next == Toggle \/ Train \/ Noise \/ Found \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars
Right == phase = "idle" /\ runs > 0 => IsClustering(x, e2, m, lab)
Fresh == phase = "idle" /\ kept # <<>> => kept = x
\* border rows never change their cluster once assigned, cores are never noise
Stable == phase = "scan" => \A i \in Rows(x) : lab[i] <= cur
=============================================================================
