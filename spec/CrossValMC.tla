----------------------------- MODULE CrossValMC -----------------------------
(***************************************************************************)
(* The fold loop: rows in a random order, one consecutive block per fold.  *)
(* Fail: the model may fail in any fold.  Even = FALSE is a broken variant *)
(* in which every block has n div k rows and the rest is never tested.     *)
(***************************************************************************)
EXTENDS CrossVal, TLC
CONSTANTS N, Even
VARIABLES n, k, order, p, trained, tested, result
vars == <<n, k, order, p, trained, tested, result>>
\* ACTIONS Shuffle Train Test Finish Fail
Q == n \div k
R == n % k
Low(a, b) == IF a < b THEN a ELSE b
First(i) == IF Even THEN (i - 1) * Q + Low(i - 1, R) ELSE (i - 1) * Q
Size(i) == IF Even /\ i <= R THEN Q + 1 ELSE Q
Block(i) == SubSeq(order, First(i) + 1, First(i) + Size(i))
Rest(i) == SubSeq(order, 1, First(i)) \o SubSeq(order, First(i) + Size(i) + 1, n)
Init == /\ n \in 2..N /\ k \in 2..n /\ order = <<>> /\ p = 0 /\ trained = <<>> /\ tested = <<>> /\ result = "none"
Shuffle == /\ order = <<>> /\ order' \in {s \in [1..n -> 1..n] : NoDup(s)} /\ p' = 1 /\ UNCHANGED <<n, k, trained, tested, result>>
Busy == order # <<>> /\ result = "none" /\ p <= k
Train == /\ Busy /\ Len(trained) < p /\ trained' = Append(trained, Rest(p)) /\ UNCHANGED <<n, k, order, p, tested, result>>
Test == /\ Busy /\ Len(trained) = p /\ tested' = Append(tested, Block(p)) /\ p' = p + 1 /\ UNCHANGED <<n, k, order, trained, result>>
Finish == /\ result = "none" /\ p = k + 1 /\ result' = "scores" /\ UNCHANGED <<n, k, order, p, trained, tested>>
Fail == /\ Busy /\ result' = "error" /\ UNCHANGED <<n, k, order, p, trained, tested>>
Next == Shuffle \/ Train \/ Test \/ Finish \/ Fail
Spec == Init /\ [][Next]_vars
Disjoint == \A i \in DOMAIN tested : Ran(tested[i]) \intersect Ran(trained[i]) = {} /\ Ran(tested[i]) \union Ran(trained[i]) = 1..n
Partition == result = "scores" => Folds(n, k, tested)
Complete == result = "scores" => Len(tested) = k
=============================================================================
