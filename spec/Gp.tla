--------------------------------- MODULE Gp ---------------------------------
(***************************************************************************)
(* learning::gp: the posterior of a Gaussian process given rows X with     *)
(* observations y under noise, for a kernel and a mean function.           *)
(***************************************************************************)
EXTENDS Kernel, Integers, Sequences, TLC
\* mean functions: the zero function, and two of the user's
MeanAt(mf, row) == CASE mf = "first" -> row[1] [] mf = "total" -> FxAdd(FxOne, FxSum(row)) [] OTHER -> FxZero
Means(mf, X) == TLCEval([i \in DOMAIN X |-> MeanAt(mf, X[i])])
Noisy(k, X, noise) == TLCEval([i \in DOMAIN X |-> [j \in DOMAIN X |-> IF i = j THEN FxAdd(Ker(k, X[i], X[j]), noise) ELSE Ker(k, X[i], X[j])]])
\* elimination without pivoting on rows with right hand sides appended: fit for positive definite matrices
Eliminate(m, p) == TLCEval([i \in DOMAIN m |-> IF i = p THEN m[i] ELSE LET f == FxDiv(m[i][p], m[p][p]) IN [j \in DOMAIN m[i] |-> FxSub(m[i][j], FxMul(f, m[p][j]))]])
RECURSIVE Reduce(_, _, _)
\* the reduced rows, or <<>> at a pivot not above bound
Reduce(m, p, bound) == IF p > Len(m) THEN m ELSE IF FxLe(m[p][p], bound) THEN <<>> ELSE Reduce(Eliminate(m, p), p + 1, bound)
Beside(m, r) == TLCEval([i \in DOMAIN m |-> m[i] \o r[i]])
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN FxOne ELSE FxZero]]
\* inverse of a positive definite matrix, <<>> if a pivot is not above bound
Inv(m, bound) == LET n == Len(m) r == Reduce(Beside(m, Unit(n)), 1, bound) IN IF r = <<>> THEN <<>> ELSE TLCEval([i \in 1..n |-> [j \in 1..n |-> FxDiv(r[i][n + j], r[i][i])]])
\* what elimination leaves of a matrix below its first pivot
Rest1(m) == TLCEval([i \in 1..(Len(m) - 1) |-> LET f == FxDiv(m[i + 1][1], m[1][1]) IN [j \in 1..(Len(m) - 1) |-> FxSub(m[i + 1][j + 1], FxMul(f, m[1][j + 1]))]])
RECURSIVE Pivots(_)
\* the pivots (elimination goes on past pivots which are not positive, as long as they are not zero)
Pivots(m) == IF m = <<>> THEN <<>> ELSE IF m[1][1][1] = 0 THEN <<FxZero>> ELSE <<m[1][1]>> \o Pivots(Rest1(m))
Trace(m) == FxSum([i \in DOMAIN m |-> FxAbs(m[i][i])])
\* 1: positive definite beyond doubt, -1: not positive definite beyond doubt, 0: unclear
Definite(m) == LET p == Pivots(m) t == FxMul(Eps(9), Trace(m)) IN
  IF \A i \in DOMAIN p : FxLt(t, p[i]) THEN 1
  ELSE IF \E i \in DOMAIN p : FxLt(p[i], FxNeg(t)) /\ \A j \in 1..(i - 1) : FxLt(t, p[j]) THEN -1 ELSE 0
MatVec(m, v) == TLCEval([i \in DOMAIN m |-> FxDot(m[i], v)])
Norm1(m) == LET s == [i \in DOMAIN m |-> FxSum([j \in DOMAIN m[i] |-> FxAbs(m[i][j])])] IN FxSum(s)
Center(mf, X, y) == TLCEval([i \in DOMAIN X |-> FxSub(y[i], MeanAt(mf, X[i]))])
\* posterior from the inverse a of the noisy matrix
PostMean(k, mf, X, y, a, q) == LET al == MatVec(a, Center(mf, X, y)) IN [i \in DOMAIN q |-> FxAdd(MeanAt(mf, q[i]), FxSum([j \in DOMAIN X |-> FxMul(Ker(k, q[i], X[j]), al[j])]))]
PostCov(k, X, a, q) == LET c == KerMat(k, q, X) b == TLCEval([i \in DOMAIN q |-> MatVec(a, c[i])]) kq == KerMat(k, q, q) IN [i \in DOMAIN q |-> [j \in DOMAIN q |-> FxSub(kq[i][j], FxDot(c[j], b[i]))]]
\* the amplification of rounding by the solve
Cond(m, a) == FxMul(Norm1(m), Norm1(a))
\* largest sum of a row, in absolute values
Largest(S) == CHOOSE m \in S : \A v \in S : FxLe(v, m)
NormInf(m) == Largest({FxSum([j \in DOMAIN m[i] |-> FxAbs(m[i][j])]) : i \in DOMAIN m})
\* relative error of a solve by decomposition
Amplified(m, a) == FxMul(FxI(Len(m) * Len(m)), FxMul(NormInf(m), NormInf(a)))
=============================================================================
