----------------------------- MODULE LogisticMC -----------------------------
(***************************************************************************)
(* A logistic model handed to some optimizer: it starts at a fixed point,  *)
(* evaluates the cost and its gradient wherever it likes (here: moves of   *)
(* one parameter at a time), and the point it ends at is kept.  The cost   *)
(* is convex, so a gradient belongs to it exactly if it supports it.       *)
(***************************************************************************)
\* ACTIONS Train Move Keep
EXTENDS Regress, TLC
CONSTANTS Rows, Levels, Xs, Trainings, Mean
Step(k) == FxDiv(FxI(k - 5), FxI(2))
VARIABLES x, t, w, last, phase, par, n
vars == <<x, t, w, last, phase, par, n>>
D(a) == [i \in DOMAIN a |-> <<FxOne, Step(a[i])>>]
T(a) == [i \in DOMAIN a |-> FxI(a[i])]
W(a) == [j \in 1..2 |-> Step(a[j])]
First == <<6, 6>>
Init == x = <<>> /\ t = <<>> /\ w = First /\ last = <<>> /\ phase = "idle" /\ par = <<>> /\ n = 0
Train == phase = "idle" /\ n < Trainings /\ x' \in [1..Rows -> Xs] /\ t' \in [1..Rows -> {0, 1}] /\ w' = First /\ last' = <<>> /\ phase' = "descend" /\ n' = n + 1 /\ UNCHANGED par
Move == /\ phase = "descend"
        /\ \E j \in 1..2, v \in Levels : v # w[j] /\ w' = [w EXCEPT ![j] = v] /\ last' = <<w, j>>
        /\ UNCHANGED <<x, t, phase, par, n>>
Keep == phase = "descend" /\ par' = w /\ phase' = "idle" /\ last' = <<>> /\ UNCHANGED <<x, t, w, n>>
Next == Train \/ Move \/ Keep
Spec == Init /\ [][Next]_vars
Gradient(a) == LET g == LogitGrad(D(x), T(t), W(a)) IN IF Mean THEN g ELSE [j \in 1..2 |-> FxMul(FxI(Rows), g[j])]
\* the same cost from its definition
ByDefinition(a) == FxDiv(FxNeg(FxSum([i \in DOMAIN x |-> LET h == Sigmoid(FxDot(D(x)[i], W(a))) IN IF t[i] = 1 THEN FxLn(h) ELSE FxLn(FxSub(FxOne, h))])), FxI(Rows))
Slack == Eps(20)
CostAgrees == phase = "descend" => FxAbsClose(LogitCost(D(x), T(t), W(w)), ByDefinition(w), Slack)
Supports == phase = "descend" /\ last # <<>> =>
  LET j == last[2] d == FxSub(W(w)[j], W(last[1])[j]) rise == FxSub(LogitCost(D(x), T(t), W(w)), LogitCost(D(x), T(t), W(last[1]))) IN
  FxLe(FxMul(Gradient(last[1])[j], d), FxAdd(rise, Slack)) /\ FxLe(rise, FxAdd(FxMul(Gradient(w)[j], d), Slack))
Kept == phase = "idle" /\ n > 0 => par = w
=============================================================================
