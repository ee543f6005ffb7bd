------------------------------- MODULE Activ -------------------------------
(* Activation functions: what each function, derivative and inverse is. *)
EXTENDS Fx

Ulp == FxDiv(FxOne, Pow2(51))       \* 2^-51: rounding of results of size at most 1
Tiny == FxDiv(FxOne, Pow2(170))     \* smaller magnitudes are not represented here
R12 == Eps(12)
Big == FxI(740)                     \* e^-740 rounds to 0, e^740 overflows

Funs == {"sigmoid", "linear", "exp", "tanh"}
SigmoidE(x) == LET t == FxExp(FxNeg(FxAbs(x))) IN          \* 1/(1+e^-x), without overflow
               IF x[1] < 0 THEN FxDiv(t, FxAdd(FxOne, t)) ELSE FxDiv(FxOne, FxAdd(FxOne, t))
F(f, x) == CASE f = "sigmoid" -> SigmoidE(x)
             [] f = "linear" -> x
             [] f = "exp" -> FxExp(x)
             [] f = "tanh" -> FxTanh(x)
\* derivative as a function of the output, as documented for func_grad_from_output
DOut(f, y) == CASE f = "sigmoid" -> FxMul(y, FxSub(FxOne, y))
                [] f = "linear" -> FxOne
                [] f = "exp" -> y
                [] f = "tanh" -> FxSub(FxOne, FxSq(y))
D(f, x) == CASE f = "sigmoid" -> LET t == FxExp(FxNeg(FxAbs(x))) IN FxDiv(t, FxSq(FxAdd(FxOne, t)))
             [] f = "linear" -> FxOne
             [] f = "exp" -> FxExp(x)
             [] f = "tanh" -> LET t == FxExp(FxMul(FxI(-2), FxAbs(x))) IN FxDiv(FxMul(FxI(4), t), FxSq(FxAdd(FxOne, t)))
Inv(f, y) == CASE f = "sigmoid" -> FxLn(FxDiv(y, FxSub(FxOne, y)))
               [] f = "linear" -> y
               [] f = "exp" -> FxLn(y)
               [] f = "tanh" -> FxDiv(FxLn(FxDiv(FxAdd(FxOne, y), FxSub(FxOne, y))), FxI(2))
\* inside the open range, where the inverse exists
InRange(f, y) == CASE f = "sigmoid" -> FxLt(FxZero, y) /\ FxLt(y, FxOne)
                   [] f = "linear" -> TRUE
                   [] f = "exp" -> FxLt(FxZero, y)
                   [] f = "tanh" -> FxLt(FxI(-1), y) /\ FxLt(y, FxOne)

(* judging floating point results *)
Near(f, a, b) == CASE f = "linear" -> FxFin(a) /\ FxEq(a, b)
                   [] f = "exp" -> FxRel(a, b, R12, Tiny)
                   [] OTHER -> FxRel(a, b, R12, Ulp)
Saturated(x) == FxLt(Big, FxAbs(x))
OkFunc(f, x, y) ==
  IF Saturated(x) /\ f # "linear"
  THEN CASE f = "exp" -> IF x[1] > 0 THEN y = FxInf ELSE FxFin(y) /\ FxLe(FxAbs(y), Tiny)
         [] f = "sigmoid" -> Near(f, y, IF x[1] > 0 THEN FxOne ELSE FxZero)
         [] f = "tanh" -> Near(f, y, FxI(x[1]))
  ELSE IF f = "sigmoid" /\ x[1] < 0 THEN FxRel(y, F(f, x), R12, Tiny)     \* e^x/(1+e^x) is small, not imprecise
  ELSE Near(f, y, F(f, x))
OkGrad(f, x, g) ==
  IF Saturated(x) /\ f # "linear"
  THEN CASE f = "exp" -> IF x[1] > 0 THEN g = FxInf ELSE FxFin(g) /\ FxLe(FxAbs(g), Tiny)
         [] OTHER -> Near(f, g, FxZero)
  ELSE Near(f, g, D(f, x))
Bounded(f, y) == CASE f = "sigmoid" -> FxFin(y) /\ FxLe(FxZero, y) /\ FxLe(y, FxOne)
                   [] f = "tanh" -> FxFin(y) /\ FxLe(FxI(-1), y) /\ FxLe(y, FxOne)
                   [] OTHER -> y # FxNaN
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : FxLe(s[i], FxAdd(s[i + 1], Ulp))
\* func_inv(y): rounding of y/(1-y) or (1+y)/(1-y) is a few ulps of the logarithm's argument,
\* and a rounding of y itself is magnified by the slope of the inverse
OkInv(f, y, v) == IF f = "linear" THEN FxFin(v) /\ FxEq(v, y)
                  ELSE FxRel(v, Inv(f, y), FxDiv(FxOne, Pow2(46)),
                             FxAdd(FxDiv(FxOne, Pow2(48)), CASE f = "exp" -> FxZero
                                                           [] f = "sigmoid" -> FxDiv(FxDiv(FxOne, Pow2(51)), FxSub(FxOne, y))
                                                           [] OTHER -> FxDiv(FxDiv(FxOne, Pow2(51)), DOut(f, y))))
\* func_inv(func(x)): the rounding of func(x) is magnified by the slope of the inverse
OkRound(f, x, v) ==
  IF f = "linear" THEN FxFin(v) /\ FxEq(v, x)
  ELSE FxFin(v) /\ FxLe(FxAbs(FxSub(v, x)),
         FxAdd(FxMul(FxDiv(FxOne, Pow2(46)), FxAdd(FxOne, FxAbs(x))),
               CASE f = "exp" -> FxZero
                 [] f = "sigmoid" -> FxMul(FxDiv(FxOne, Pow2(50)), FxAdd(FxOne, FxExp(x)))      \* 1/(1-func(x))
                 [] OTHER -> FxDiv(FxDiv(FxOne, Pow2(50)), D(f, x))))
=============================================================================
