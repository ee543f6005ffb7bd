----------------------------- MODULE GradDescMC -----------------------------
(***************************************************************************)
(* Epochs of (stochastic) gradient descent on N samples with cost          *)
(* w (w - 2 a) for the sample a, in exact rational arithmetic with rates   *)
(* 1/2: every order of every epoch.  theta is Nesterov's own iterate, which *)
(* the program does not hold: it holds the point looked ahead at.          *)
(* ZeroStart = TRUE: the cost before the first epoch counts as 0.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Kind, N, Iters, Samples, ZeroStart
VARIABLES a, todo, w, v, theta, epoch, cost, prev, steps, done
vars == <<a, todo, w, v, theta, epoch, cost, prev, steps, done>>
\* ACTIONS Shuffle Sample Pass Stop
\* dyadic rationals <<n, k>> = n / 2^k
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
RECURSIVE Norm(_)
Norm(x) == IF x[2] > 0 /\ x[1] % 2 = 0 THEN Norm(<<x[1] \div 2, x[2] - 1>>) ELSE x
Add(x, y) == LET k == IF x[2] > y[2] THEN x[2] ELSE y[2] IN Norm(<<x[1] * P2(k - x[2]) + y[1] * P2(k - y[2]), k>>)
Scale(x, n, k) == Norm(<<x[1] * n, x[2] + k>>)
Neg(x) == <<-x[1], x[2]>>
Mul(x, y) == Norm(<<x[1] * y[1], x[2] + y[2]>>)
Rat(n) == <<n, 0>>
Cost(x, s) == Mul(x, Add(x, Rat(-2 * s)))
Grad(x, s) == Scale(Add(x, Rat(-s)), 2, 0)
Perms == {p \in [1..N -> 1..N] : {p[i] : i \in 1..N} = 1..N}
Init == /\ a \in [1..N -> {s - 1 : s \in Samples}] /\ todo = <<>> /\ w = Rat(0) /\ v = Rat(0) /\ theta = Rat(0) /\ epoch = 0 /\ cost = <<>> /\ prev = (IF ZeroStart THEN <<Rat(0)>> ELSE <<>>)
        /\ steps = [i \in 1..N |-> 0] /\ done = FALSE
Shuffle == /\ ~done /\ todo = <<>> /\ epoch < Iters /\ cost = <<>> /\ todo' \in (IF Kind = "gd" THEN {<<0>>} ELSE Perms) /\ epoch' = epoch + 1 /\ UNCHANGED <<a, w, v, theta, cost, prev, steps, done>>
Total(s) == FoldLeft(LAMBDA x, y : Add(x, y), Rat(0), s)
CostAt(i) == IF i = 0 THEN Total([j \in 1..N |-> Cost(w, a[j])]) ELSE Cost(w, a[i])
GradAt(i) == IF i = 0 THEN Total([j \in 1..N |-> Grad(w, a[j])]) ELSE Grad(w, a[i])
Sample == /\ todo # <<>> /\ cost' = Append(cost, CostAt(Head(todo))) /\ todo' = Tail(todo)
          /\ LET g == GradAt(Head(todo))
                 v1 == IF Kind = "gd" THEN Scale(g, 1, 1) ELSE Add(Scale(g, 1, 1), Scale(v, 1, 1)) IN
             /\ v' = v1
             /\ w' = (IF Kind = "gd" THEN Add(w, Neg(v1)) ELSE Add(w, Neg(Add(Neg(Scale(v, 1, 1)), Scale(v1, 3, 1)))))
             /\ theta' = Add(theta, Neg(v1))
          /\ steps' = (IF Kind = "gd" THEN [i \in 1..N |-> steps[i] + 1] ELSE [steps EXCEPT ![Head(todo)] = @ + 1])
          /\ UNCHANGED <<a, epoch, prev, done>>
Settled == prev # <<>> /\ prev[1] = Total(cost)
Pass == /\ ~done /\ todo = <<>> /\ cost # <<>> /\ ~Settled /\ prev' = <<Total(cost)>> /\ cost' = <<>> /\ done' = (epoch = Iters) /\ UNCHANGED <<a, todo, w, v, theta, epoch, steps>>
Stop == /\ ~done /\ todo = <<>> /\ cost # <<>> /\ Settled /\ done' = TRUE /\ UNCHANGED <<a, todo, w, v, theta, epoch, cost, prev, steps>>
Next == Shuffle \/ Sample \/ Pass \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the program's point is Nesterov's looked-ahead one: theta - alpha v
Lookahead == Kind = "sgd" => w = Add(theta, Neg(Scale(v, 1, 1)))
Plain == Kind = "gd" => w = theta
OncePerEpoch == \A i \in 1..N : steps[i] \in {epoch - 1, epoch}
Balanced == todo = <<>> => \A i \in 1..N : steps[i] = epoch
Budget == epoch <= Iters
\* stopping before the budget is used up needs two epochs
EarlyOnlyIfSettled == done => epoch = Iters \/ epoch >= 2
Ends == <>done
=============================================================================
