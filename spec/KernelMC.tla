------------------------------ MODULE KernelMC ------------------------------
(***************************************************************************)
(* Kernels composed step by step.  Every kernel is symmetric; sums and     *)
(* products of kernels that are inner products of features are such again  *)
(* (their matrices have no negative minor), which is what Gaussian         *)
(* processes and support vector machines need of them.                     *)
(***************************************************************************)
\* ACTIONS Take Plus Times
EXTENDS Kernel, Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Depth, Coords, Dim
H == FxQ(1, 2)
Make(n) == CASE n = "lin" -> [k |-> "lin", c |-> FxI(1)]
             [] n = "square" -> [k |-> "poly", alpha |-> FxI(1), c |-> FxI(1), d |-> FxI(2)]
             [] n = "root" -> [k |-> "poly", alpha |-> H, c |-> FxI(8), d |-> H]
             [] n = "sqexp" -> [k |-> "sqexp", ls |-> FxI(1), ampl |-> FxI(3)]
             [] n = "exp" -> [k |-> "exp", ls |-> H, ampl |-> FxI(1)]
             [] n = "rq" -> [k |-> "rq", alpha |-> FxI(2), ls |-> FxI(1)]
             [] n = "tanh" -> [k |-> "tanh", alpha |-> FxI(1), c |-> FxI(-1)]
             [] n = "mq" -> [k |-> "mq", c |-> FxI(1)]
VARIABLES expr, depth
vars == <<expr, depth>>
Points == [1..Dim -> Coords]
V(p) == [i \in 1..Dim |-> FxI(p[i] - 2)]
Init == expr = <<>> /\ depth = 0
Take == depth = 0 /\ \E n \in Names : expr' = <<Make(n)>> /\ depth' = 1
Plus == depth \in 1..Depth /\ \E n \in Names : expr' = <<[k |-> "sum", a |-> expr[1], b |-> Make(n)]>> /\ depth' = depth + 1
Times == depth \in 1..Depth /\ \E n \in Names : expr' = <<[k |-> "prod", a |-> Make(n), b |-> expr[1]]>> /\ depth' = depth + 1
Next == Take \/ Plus \/ Times
Spec == Init /\ [][Next]_vars
Tol(p, q) == FxAdd(KerTol(expr[1], V(p), V(q)), Eps(30))
Symmetric == depth > 0 => \A p, q \in Points : HasValue(expr[1], V(p), V(q)) => FxAbsClose(Ker(expr[1], V(p), V(q)), Ker(expr[1], V(q), V(p)), Eps(40))
\* minors of order two and three
InnerProduct == depth > 0 => \A p, q \in Points : LET a == Ker(expr[1], V(p), V(p)) b == Ker(expr[1], V(q), V(q)) c == Ker(expr[1], V(p), V(q)) IN
  /\ FxLe(FxNeg(Eps(20)), a)
  /\ FxLe(FxSq(c), FxAdd(FxMul(a, b), Eps(20)))
  /\ FxLe(c, FxAdd(FxDiv(FxAdd(a, b), FxI(2)), Eps(20)))
Det3(m) == FxAdd(FxMul(m[1][1], FxSub(FxMul(m[2][2], m[3][3]), FxMul(m[2][3], m[3][2]))),
           FxAdd(FxMul(m[1][2], FxSub(FxMul(m[2][3], m[3][1]), FxMul(m[2][1], m[3][3]))), FxMul(m[1][3], FxSub(FxMul(m[2][1], m[3][2]), FxMul(m[2][2], m[3][1])))))
Triples == {t \in [1..3 -> Points] : \A i, j \in 1..3 : i < j => \E m \in 1..Dim : (\A l \in 1..(m - 1) : t[i][l] = t[j][l]) /\ t[i][m] < t[j][m]}
Minors == depth > 0 => \A t \in Triples : FxLe(FxNeg(Eps(15)), Det3(KerMat(expr[1], [i \in 1..3 |-> V(t[i])], [i \in 1..3 |-> V(t[i])])))
=============================================================================
