------------------------------ MODULE KMeansMC ------------------------------
(***************************************************************************)
(* Lloyd's iteration with exact rational arithmetic on a line: a centroid  *)
(* is <<sum, count>>.  Every data set of up to N rows, every choice of k   *)
(* rows as initial centroids (ties included), every way of breaking ties.  *)
(* Keep: a centroid no row is nearest to stays where it is (FALSE: it gets *)
(* count 0, "not a number" - how the code once did it; refuted by Finite). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS N, G, K, Keep
VARIABLES x, C, cls, phase, steps
vars == <<x, C, cls, phase, steps>>
\* ACTIONS Assign Update Halt
\* squared distance of x to s/c as a fraction over c^2
Num(v, cen) == (v * cen[2] - cen[1]) * (v * cen[2] - cen[1])
Closer(v, a, b) == Num(v, a) * b[2] * b[2] <= Num(v, b) * a[2] * a[2]
Best(v) == {c \in 1..K : \A d \in 1..K : Closer(v, C[c], C[d])}
Init == /\ x \in UNION {[1..n -> 0..G] : n \in K..N}
        /\ \E f \in [1..K -> DOMAIN x] : (\A a, b \in 1..K : a # b => f[a] # f[b]) /\ C = [c \in 1..K |-> <<x[f[c]], 1>>]
        /\ cls = <<>> /\ phase = "assign" /\ steps = 0
Assign == /\ phase = "assign" /\ cls' \in {f \in [DOMAIN x -> 1..K] : \A i \in DOMAIN x : f[i] \in Best(x[i])}
          /\ phase' = "update" /\ UNCHANGED <<x, C, steps>>
Mean(c) == LET S == {i \in DOMAIN x : cls[i] = c} IN
           IF S = {} THEN (IF Keep THEN C[c] ELSE <<0, 0>>) ELSE <<FoldSet(LAMBDA i, a : a + x[i], 0, S), Cardinality(S)>>
Same(a, b) == a[1] * b[2] = b[1] * a[2]
Moved == \E c \in 1..K : ~Same(C[c], Mean(c))
Update == /\ phase = "update" /\ Moved /\ C' = [c \in 1..K |-> Mean(c)] /\ phase' = "assign" /\ steps' = steps + 1 /\ UNCHANGED <<x, cls>>
Halt == /\ phase = "update" /\ ~Moved /\ phase' = "done" /\ UNCHANGED <<x, C, cls, steps>>
Next == Assign \/ Update \/ Halt
Spec == Init /\ [][Next]_vars
\* cost times L, a common multiple of all squared counts
L == 3600
CostL(cen) == FoldSet(LAMBDA i, a : a + Min({Num(x[i], cen[c]) * (L \div (cen[c][2] * cen[c][2])) : c \in 1..K}), 0, DOMAIN x)
Finite == \A c \in 1..K : C[c][2] > 0
Hull == Finite => \A c \in 1..K : \E i, j \in DOMAIN x : x[i] * C[c][2] <= C[c][1] /\ C[c][1] <= x[j] * C[c][2]
Falls == [][CostL(C') <= CostL(C)]_C
Ends == steps <= 4
Fixed == phase = "done" => \A c \in 1..K : LET S == {i \in DOMAIN x : cls[i] = c} IN S # {} => Same(C[c], Mean(c))
=============================================================================
