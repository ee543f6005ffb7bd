------------------------------ MODULE CostReg ------------------------------
(***************************************************************************)
(* learning::toolkit::{cost_fn, regularization} over rows of reals.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Fx
Flat(m) == FoldLeft(LAMBDA a, r : a \o r, <<>>, m)
ZipBy(a, b, Op(_, _)) == [i \in DOMAIN a |-> Op(a[i], b[i])]
\* terms x ln y with the convention 0 ln 0 = 0; 3 and 4: not finite
XLn(x, y) == IF x[1] = 0 THEN FxZero ELSE IF y[1] = 0 THEN (IF x[1] > 0 THEN FxNInf ELSE FxInf) ELSE FxMul(x, FxLn(y))
Plus(a, b) == IF FxFin(a) /\ FxFin(b) THEN FxAdd(a, b) ELSE IF FxFin(a) THEN b ELSE a
Terms(kind, o, t) == ZipBy(Flat(o), Flat(t), LAMBDA y, x :
  CASE kind = "mse" -> FxDiv(FxSq(FxSub(y, x)), FxI(2))
    [] OTHER -> LET s == Plus(XLn(x, y), XLn(FxSub(FxOne, x), FxSub(FxOne, y))) IN IF FxFin(s) THEN FxNeg(s) ELSE FxInf)
Cost(kind, o, t, n) == LET s == Terms(kind, o, t) IN IF \E i \in DOMAIN s : ~FxFin(s[i]) THEN FxInf ELSE FxDiv(FxSum(s), FxI(n))
\* a / b, 0 / 0 being 0
FxDivZ(a, b) == IF a[1] = 0 THEN FxZero ELSE IF b[1] = 0 THEN FxInf ELSE FxDiv(a, b)
\* number of rows times the derivative of the cost by each output
CostGrad(kind, o, t) == [i \in DOMAIN o |-> ZipBy(o[i], t[i], LAMBDA y, x :
  IF kind = "mse" THEN FxSub(y, x)
  ELSE LET up == FxDivZ(FxSub(FxOne, x), FxSub(FxOne, y)) down == FxDivZ(x, y) IN IF FxFin(up) /\ FxFin(down) THEN FxSub(up, down) ELSE FxInf)]
\* penalties of rows of weights, r of them
AbsSum(m) == FxSum([i \in DOMAIN Flat(m) |-> FxAbs(Flat(m)[i])])
SqSum(m) == LET f == Flat(m) IN FxDot(f, f)
L1Of(x, m) == FxDiv(FxMul(x, AbsSum(m)), FxI(2 * Len(m)))
L2Of(x, m) == FxDiv(FxMul(x, SqSum(m)), FxI(2 * Len(m)))
PlainOf(x, m) == FxDiv(FxMul(x, FxSqrt(SqSum(m))), FxI(2 * Len(m)))
\* reg = <<kind, x, y>>
Penalty(reg, m) == CASE reg[1] = "l1" -> L1Of(reg[2], m) [] reg[1] = "l2" -> L2Of(reg[2], m) [] reg[1] = "en" -> FxAdd(L1Of(reg[2], m), L2Of(reg[3], m)) [] OTHER -> FxZero
PlainPenalty(reg, m) == CASE reg[1] = "l2" -> PlainOf(reg[2], m) [] reg[1] = "en" -> FxAdd(L1Of(reg[2], m), PlainOf(reg[3], m)) [] OTHER -> Penalty(reg, m)
\* derivative of the penalty by one weight: an interval, for L1 has a kink at zero
Slope1(x, v, r) == LET s == FxDiv(x, FxI(2 * r)) IN IF v[1] = 0 THEN <<FxNeg(FxAbs(s)), FxAbs(s)>> ELSE IF v[1] > 0 THEN <<s, s>> ELSE <<FxNeg(s), FxNeg(s)>>
Slope2(x, v, r) == LET s == FxDiv(FxMul(x, v), FxI(r)) IN <<s, s>>
Slope(reg, v, r) == CASE reg[1] = "l1" -> Slope1(reg[2], v, r) [] reg[1] = "l2" -> Slope2(reg[2], v, r)
                      [] reg[1] = "en" -> LET a == Slope1(reg[2], v, r) b == Slope2(reg[3], v, r) IN <<FxAdd(a[1], b[1]), FxAdd(a[2], b[2])>>
                      [] OTHER -> <<FxZero, FxZero>>
Within(v, iv, tol) == FxFin(v) /\ FxLe(FxSub(iv[1], tol), v) /\ FxLe(v, FxAdd(iv[2], tol))
=============================================================================
