----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* data::transforms.  A fitted scaler is an affine map of each column,     *)
(* v |-> lo + (v - c) * (w / d): c, d are taken from the fitted column     *)
(* (its minimum and range, or its mean and deviation), lo, w are the       *)
(* configuration.  Values are reals of Fx, non-finite ones included.       *)
(***************************************************************************)
EXTENDS RandTools, Fx
ColOf(x, j) == [i \in DOMAIN x |-> x[i][j]]
AllFin(x) == \A i \in DOMAIN x : \A j \in DOMAIN x[i] : FxFin(x[i][j])
MinOf(s) == FoldLeft(LAMBDA a, v : FxMin(a, v), s[1], s)
MaxOf(s) == FoldLeft(LAMBDA a, v : FxMax(a, v), s[1], s)
MeanOf(s) == FxDiv(FxSum(s), FxI(Len(s)))
VarOf(s) == LET m == MeanOf(s) IN FxDiv(FxSum([i \in DOMAIN s |-> FxSq(FxSub(s[i], m))]), FxI(Len(s) - 1))
Constant(s) == \A i \in DOMAIN s : FxEq(s[i], s[1])
\* the fitted columns <<c, d>>
\* and the relative error of d that rounding of the mean, n u |c| / d of d, causes: its square
MinMaxCol(s) == <<MinOf(s), FxSub(MaxOf(s), MinOf(s)), FxZero>>
StandCol(s, u) == LET c == MeanOf(s) d == FxSqrt(VarOf(s)) IN <<c, d, IF d[1] = 0 THEN FxZero ELSE FxSq(FxDiv(FxMul(FxMul(FxI(Len(s)), u), c), d))>>
FitCols(kind, x, cols, u) == [j \in 1..cols |-> IF kind = "minmax" THEN MinMaxCol(ColOf(x, j)) ELSE StandCol(ColOf(x, j), u)]
Refused(kind, x, cols) == IF kind = "minmax" THEN x = <<>> \/ ~AllFin(x) \/ \E j \in 1..cols : Constant(ColOf(x, j))
                          ELSE Len(x) <= 1 \/ ~AllFin(x) \/ \E j \in 1..cols : Constant(ColOf(x, j))
Scaled(f, w, v) == FxDiv(FxMul(v, w), f[2])
UnScaled(f, w, v) == FxDiv(FxMul(v, f[2]), w)
Image(f, lo, w, v) == FxAdd(lo, Scaled(f, w, FxSub(v, f[1])))
PreImage(f, lo, w, v) == FxAdd(f[1], UnScaled(f, w, FxSub(v, lo)))
\* size of the terms an implementation in floating point adds up, and what an error of d makes of them
Terms(f, lo, w, v) == FxAdd(FxAdd(FxAbs(lo), FxAbs(w)), Scaled(f, w, FxAdd(FxAbs(v), FxAbs(f[1]))))
Slack(f, lo, w, v, tol) == FxAdd(FxMul(tol, Terms(f, lo, w, v)), FxMul(f[3], FxAbs(Scaled(f, w, FxSub(v, f[1])))))
Near1(a, b, slack) == FxFin(a) /\ FxLe(FxAbs(FxSub(a, b)), slack)
Mapped(fit, lo, w, q, out, tol) ==
  /\ Len(out) = Len(q)
  /\ \A i \in DOMAIN q : Len(out[i]) = Len(fit) /\ \A j \in DOMAIN fit :
       IF ~FxFin(q[i][j]) THEN ~FxFin(out[i][j]) ELSE Near1(out[i][j], Image(fit[j], lo, w, q[i][j]), Slack(fit[j], lo, w, q[i][j], tol))
UnMapped(fit, lo, w, q, out, tol) ==
  /\ Len(out) = Len(q)
  /\ \A i \in DOMAIN q : Len(out[i]) = Len(fit) /\ \A j \in DOMAIN fit :
       IF ~FxFin(q[i][j]) THEN ~FxFin(out[i][j])
       ELSE LET b == PreImage(fit[j], lo, w, q[i][j]) IN Near1(out[i][j], b, UnScaled(fit[j], w, Slack(fit[j], lo, w, b, tol)))
\* row norms: p = 0 maximum, 1 sum of absolute values, 2 Euclidean, p > 2 by its power, -1 a user's norm (three times the largest)
Abs1(r) == [j \in DOMAIN r |-> FxAbs(r[j])]
Big(r) == MaxOf(Append(Abs1(r), FxZero))
PowerSum(r, p) == FxSum([j \in DOMAIN r |-> FxPow(FxAbs(r[j]), p)])
\* out = r / norm(r): the norm of out is one and out is r times a positive number
UnitNorm(out, p, tol) == CASE p = -1 -> FxClose(FxMul(FxI(3), Big(out)), FxOne, tol)
                           [] p = 0 -> FxClose(Big(out), FxOne, tol)
                           [] OTHER -> FxClose(PowerSum(out, p), FxOne, FxMul(FxI(p), tol))
Along(r, out, tol) == \E m \in DOMAIN r : /\ \A j \in DOMAIN r : FxLe(FxAbs(r[j]), FxAbs(r[m]))
                                         /\ r[m][1] = out[m][1]
                                         /\ \A j \in DOMAIN r : FxLe(FxAbs(FxSub(FxMul(out[j], r[m]), FxMul(r[j], out[m]))), FxMul(tol, FxAbs(FxMul(r[m], out[m]))))
ZeroRow(r) == \A j \in DOMAIN r : r[j][1] = 0
Normalized(r, out, p, tol) == IF ZeroRow(r) THEN out = r
                              ELSE Len(out) = Len(r) /\ (\A j \in DOMAIN out : FxFin(out[j])) /\ UnitNorm(out, p, tol) /\ Along(r, out, tol)
=============================================================================
