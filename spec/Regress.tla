------------------------------ MODULE Regress ------------------------------
(***************************************************************************)
(* learning::{lin_reg, logistic_reg, glm}: models of the affine score      *)
(* b[1] + b[2] x[1] + ...                                                  *)
(***************************************************************************)
EXTENDS CostReg, TLC
Design(x) == [i \in DOMAIN x |-> <<FxOne>> \o x[i]]
Score(b, row) == FxAdd(b[1], FxSum([j \in DOMAIN row |-> FxMul(b[j + 1], row[j])]))
Bulky(b, row) == FxAdd(FxAbs(b[1]), FxSum([j \in DOMAIN row |-> FxAbs(FxMul(b[j + 1], row[j]))]))
Sigmoid(z) == FxDiv(FxOne, FxAdd(FxOne, FxExp(FxNeg(z))))
AllFin(s) == \A i \in DOMAIN s : FxFin(s[i])
\* normal equations of least squares, up to rounding of their terms
Residual(X, y, b, j) == FxSum([i \in DOMAIN X |-> FxMul(X[i][j], FxSub(FxDot(X[i], b), y[i]))])
TermsOf(X, y, b, j) == FxSum([i \in DOMAIN X |-> FxMul(FxAbs(X[i][j]), FxAdd(FxAbs(y[i]), FxSum([k \in DOMAIN b |-> FxAbs(FxMul(X[i][k], b[k]))])))])
NormalEqs(X, y, b, tol) == \A j \in DOMAIN b : FxLe(FxAbs(Residual(X, y, b, j)), FxMul(tol, TermsOf(X, y, b, j)))
Gram(X) == [j \in DOMAIN X[1] |-> [k \in DOMAIN X[1] |-> FxSum([i \in DOMAIN X |-> FxMul(X[i][j], X[i][k])])]]
Minor(m, c) == [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE Det(_)
Det(m) == IF Len(m) = 1 THEN m[1][1]
          ELSE IF Len(m) > 4 THEN \* positive semi-definite: eliminate
            IF m[1][1][1] <= 0 THEN FxZero
            ELSE LET rest == TLCEval([i \in 1..(Len(m) - 1) |-> LET f == FxDiv(m[i + 1][1], m[1][1]) IN [j \in 1..(Len(m) - 1) |-> FxSub(m[i + 1][j + 1], FxMul(f, m[1][j + 1]))]]) IN FxMul(m[1][1], Det(rest))
          ELSE FxSum([c \in 1..Len(m) |-> LET p == FxMul(m[1][c], Det(Minor(m, c))) IN IF c % 2 = 1 THEN p ELSE FxNeg(p)])
RECURSIVE Diagonal(_, _)
Diagonal(m, k) == IF k = 0 THEN FxOne ELSE FxMul(m[k][k], Diagonal(m, k - 1))
\* 0: columns dependent; 1: nearly; 2: independent
Rank(X) == LET g == TLCEval(Gram(X)) d == Det(g) IN IF d[1] = 0 \/ Len(X) < Len(X[1]) THEN 0 ELSE IF FxLe(d, FxMul(Eps(9), Diagonal(g, Len(g)))) THEN 1 ELSE 2
\* mean cross entropy of the sigmoid of the score, through the score itself: ln(1 + e^z) - t z
SoftPlus(z) == IF z[1] > 0 THEN FxAdd(z, FxLn(FxAdd(FxOne, FxExp(FxNeg(z))))) ELSE FxLn(FxAdd(FxOne, FxExp(z)))
LogitCost(X, y, w) == FxDiv(FxSum([i \in DOMAIN X |-> LET z == FxDot(X[i], w) IN FxSub(SoftPlus(z), FxMul(y[i], z))]), FxI(Len(X)))
LogitGrad(X, y, w) == LET e == [i \in DOMAIN X |-> FxSub(Sigmoid(FxDot(X[i], w)), y[i])] IN [j \in DOMAIN w |-> FxDiv(FxSum([i \in DOMAIN X |-> FxMul(e[i], X[i][j])]), FxI(Len(X)))]
SquareCost(X, y, w) == FxDiv(FxSum([i \in DOMAIN X |-> FxSq(FxSub(FxDot(X[i], w), y[i]))]), FxI(2 * Len(X)))
SquareGrad(X, y, w) == [j \in DOMAIN w |-> FxDiv(Residual(X, y, w, j), FxI(Len(X)))]
\* generalized linear models: link functions, and the slope of the mean over the variance
LinkOf(l, m) == CASE l = "logit" -> FxLn(FxDiv(m, FxSub(FxOne, m))) [] l = "log" -> FxLn(m) [] OTHER -> m
LinkSlope(l, m) == CASE l = "logit" -> FxDiv(FxOne, FxMul(m, FxSub(FxOne, m))) [] l = "log" -> FxDiv(FxOne, m) [] OTHER -> FxOne
MeanOf(l, z) == CASE l = "logit" -> Sigmoid(z) [] l = "log" -> FxExp(z) [] OTHER -> z
VarOf(v, m) == CASE v = "binary" -> FxMul(m, FxSub(FxOne, m)) [] v = "mean" -> m [] OTHER -> FxOne
\* derivative of the log likelihood by the coefficients, of the means m
LikeSlope(fam, X, y, m, j) == FxSum([i \in DOMAIN X |-> FxDiv(FxMul(X[i][j], FxSub(y[i], m[i])), FxMul(VarOf(fam.v, m[i]), LinkSlope(fam.link, m[i])))])
LikeTerms(fam, X, y, m, j) == FxSum([i \in DOMAIN X |-> FxDiv(FxMul(FxAbs(X[i][j]), FxAdd(FxAbs(y[i]), FxAbs(m[i]))), FxMul(VarOf(fam.v, m[i]), LinkSlope(fam.link, m[i])))])
=============================================================================
