-------------------------------- MODULE GpMC --------------------------------
(***************************************************************************)
(* Gaussian process regression as the program computes it: a Cholesky      *)
(* factor built column by column, a lower and an upper triangular solve    *)
(* for the weights, a lower triangular solve per query for the covariance. *)
(* A model lives through several trainings, some of which fail.            *)
(* Stale: the targets' weights are kept when only the factor is renewed.   *)
(***************************************************************************)
\* ACTIONS Begin Column Broken Solve Keep
EXTENDS Gp, TLC, FiniteSets
CONSTANTS KName, Noises, Points, Ys, Rows, Trainings, Stale
K == CASE KName = "sqexp" -> [k |-> "sqexp", ls |-> FxOne, ampl |-> FxI(2)] [] KName = "lin" -> [k |-> "lin", c |-> FxOne] [] KName = "min" -> [k |-> "min"]
       [] OTHER -> [k |-> "tanh", alpha |-> FxOne, c |-> FxI(-1)]
Mf == "first"
NoiseOf(n) == FxQ(n, 4)
VARIABLES x, y, noise, L, w, phase, fit, n
vars == <<x, y, noise, L, w, phase, fit, n>>
R(p) == <<FxI(p)>>
X == [i \in DOMAIN x |-> R(x[i])]
Y == [i \in DOMAIN y |-> FxI(y[i])]
A == Noisy(K, X, NoiseOf(noise))
Init == x = <<>> /\ y = <<>> /\ noise = 0 /\ L = <<>> /\ w = <<>> /\ phase = "idle" /\ fit = <<>> /\ n = 0
Begin == /\ phase = "idle" /\ n < Trainings /\ n' = n + 1
         /\ \E m \in Rows : x' \in [1..m -> Points] /\ y' \in [1..m -> Ys]
         /\ noise' \in Noises /\ L' = <<>> /\ w' = <<>> /\ phase' = "factor" /\ UNCHANGED fit
\* L: columns of the factor found so far
Entry(i, c) == FxSub(A[i][c], FxSum([q \in DOMAIN L |-> FxMul(L[q][i], L[q][c])]))
Col == Len(L) + 1
Column == /\ phase = "factor" /\ Len(L) < Len(x) /\ FxLt(Eps(30), Entry(Col, Col))
          /\ LET d == FxSqrt(Entry(Col, Col)) IN L' = Append(L, [i \in DOMAIN x |-> IF i < Col THEN FxZero ELSE IF i = Col THEN d ELSE FxDiv(Entry(i, Col), d)])
          /\ UNCHANGED <<x, y, noise, w, phase, fit, n>>
Broken == phase = "factor" /\ Len(L) < Len(x) /\ FxLe(Entry(Col, Col), Eps(30)) /\ phase' = "idle" /\ L' = <<>> /\ UNCHANGED <<x, y, noise, w, fit, n>>
RECURSIVE Down(_, _, _)
Down(F, b, s) == IF Len(s) = Len(b) THEN s ELSE LET i == Len(s) + 1 IN Down(F, b, Append(s, FxDiv(FxSub(b[i], FxSum([q \in DOMAIN s |-> FxMul(F[q][i], s[q])])), F[i][i])))
RECURSIVE Up(_, _, _)
Up(F, b, s) == IF Len(s) = Len(b) THEN s ELSE LET i == Len(b) - Len(s) IN Up(F, b, <<FxDiv(FxSub(b[i], FxSum([q \in DOMAIN s |-> FxMul(F[i][i + q], s[q])])), F[i][i])>> \o s)
Solve == phase = "factor" /\ Len(L) = Len(x) /\ w' = Up(L, Down(L, Center(Mf, X, Y), <<>>), <<>>) /\ phase' = "solved" /\ UNCHANGED <<x, y, noise, L, fit, n>>
Keep == phase = "solved" /\ fit' = <<x, y, noise, L, IF Stale /\ fit # <<>> /\ Len(fit[5]) = Len(w) THEN fit[5] ELSE w>> /\ phase' = "idle" /\ L' = <<>> /\ w' = <<>> /\ x' = <<>> /\ y' = <<>> /\ UNCHANGED <<noise, n>>
Next == Begin \/ Column \/ Broken \/ Solve \/ Keep
Spec == Init /\ [][Next]_vars
\* what the trained model answers
FX == [i \in DOMAIN fit[1] |-> R(fit[1][i])]
FY == [i \in DOMAIN fit[2] |-> FxI(fit[2][i])]
FA == Noisy(K, FX, NoiseOf(fit[3]))
Q == <<R(0), R(1), R(5)>>
Answer(q) == FxAdd(MeanAt(Mf, q), FxSum([j \in DOMAIN FX |-> FxMul(Ker(K, q, FX[j]), fit[5][j])]))
Half(q) == Down(fit[4], [j \in DOMAIN FX |-> Ker(K, q, FX[j])], <<>>)
Variance(p, q) == FxSub(Ker(K, p, q), FxDot(Half(p), Half(q)))
Slack == Eps(10)
Trained == phase = "idle" /\ fit # <<>> /\ n > 0
MeanIsPosterior == Trained => LET a == Inv(FA, FxZero) p == PostMean(K, Mf, FX, FY, a, Q) IN a # <<>> /\ \A i \in DOMAIN Q : FxAbsClose(Answer(Q[i]), p[i], Slack)
CovIsPosterior == Trained => LET a == Inv(FA, FxZero) c == PostCov(K, FX, a, Q) IN \A i, j \in DOMAIN Q : FxAbsClose(Variance(Q[i], Q[j]), c[i][j], Slack)
\* data never add uncertainty, and without noise none is left at the data
Shrinks == Trained => \A i \in DOMAIN Q : FxLe(FxNeg(Slack), Variance(Q[i], Q[i])) /\ FxLe(Variance(Q[i], Q[i]), FxAdd(Ker(K, Q[i], Q[i]), Slack))
Interpolates == Trained /\ fit[3] = 0 => \A i \in DOMAIN FX : FxAbsClose(Answer(FX[i]), FY[i], Slack) /\ FxAbsClose(Variance(FX[i], FX[i]), FxZero, Slack)
\* the factorisation fails exactly on matrices that are not positive definite
FailsRightly == phase = "factor" /\ Len(L) = Len(x) => Definite(A) # -1
NeverBreaks == phase = "factor" /\ Len(L) < Len(x) /\ FxLe(Entry(Col, Col), Eps(30)) => Definite(A) # 1
\* adding the observations one at a time gives the same posterior: the first row, then the others under its posterior
Chain == Trained /\ Len(FX) = 2 /\ FxLt(Eps(9), FA[1][1]) =>
  LET a1 == FxDiv(FxOne, FA[1][1])
      m1(q) == FxAdd(MeanAt(Mf, q), FxMul(Ker(K, q, FX[1]), FxMul(a1, FxSub(FY[1], MeanAt(Mf, FX[1])))))
      c1(p, q) == FxSub(Ker(K, p, q), FxMul(a1, FxMul(Ker(K, p, FX[1]), Ker(K, q, FX[1]))))
      v == FxAdd(c1(FX[2], FX[2]), NoiseOf(fit[3])) IN
  \A i \in DOMAIN Q : FxAbsClose(FxMul(v, FxSub(Answer(Q[i]), m1(Q[i]))), FxMul(c1(Q[i], FX[2]), FxSub(FY[2], m1(FX[2]))), Slack)
=============================================================================
