------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* learning::toolkit::kernel.  A kernel is a record: its kind k and the    *)
(* parameters of that kind, all reals, or two kernels a, b for sums and    *)
(* products.                                                               *)
(***************************************************************************)
EXTENDS Fx, TLC
Diff(x, y) == TLCEval([i \in DOMAIN x |-> FxSub(x[i], y[i])])
Dist2(x, y) == LET d == Diff(x, y) IN FxDot(d, d)
Decay(a) == IF FxLe(FxI(150), a) THEN FxZero ELSE FxExp(FxNeg(a))
Powers == -6..8
Whole(d) == \E n \in Powers : d = FxI(n)
WholeOf(d) == CHOOSE n \in Powers : d = FxI(n)
PowerOf(b, d) == IF Whole(d) THEN LET n == WholeOf(d) IN IF n >= 0 THEN FxPow(b, n) ELSE FxDiv(FxOne, FxPow(b, -n))
                 ELSE IF b[1] = 0 THEN FxZero ELSE FxExp(FxMul(d, FxLn(b)))
PolyBase(k, x, y) == FxAdd(FxMul(k.alpha, FxDot(x, y)), k.c)
\* a value exists
RECURSIVE HasValue(_, _, _)
HasValue(k, x, y) ==
  CASE k.k \in {"sum", "prod"} -> HasValue(k.a, x, y) /\ HasValue(k.b, x, y)
    [] k.k = "poly" -> LET b == PolyBase(k, x, y) IN b[1] > 0 \/ (Whole(k.d) /\ (b[1] < 0 \/ WholeOf(k.d) >= 0)) \/ (b[1] = 0 /\ k.d[1] > 0)
    [] OTHER -> TRUE
RECURSIVE Ker(_, _, _)
Ker(k, x, y) ==
  CASE k.k = "lin" -> FxAdd(FxDot(x, y), k.c)
    [] k.k = "poly" -> PowerOf(PolyBase(k, x, y), k.d)
    [] k.k = "sqexp" -> FxMul(k.ampl, Decay(FxDiv(Dist2(x, y), FxMul(FxI(2), FxSq(k.ls)))))
    [] k.k = "exp" -> FxMul(k.ampl, Decay(FxDiv(FxSqrt(Dist2(x, y)), FxMul(FxI(2), FxSq(k.ls)))))
    [] k.k = "tanh" -> FxTanh(PolyBase(k, x, y))
    [] k.k = "mq" -> FxSqrt(FxAdd(Dist2(x, y), FxSq(k.c)))
    [] k.k = "rq" -> FxExp(FxMul(FxNeg(k.alpha), FxLn(FxAdd(FxOne, FxDiv(Dist2(x, y), FxMul(FxI(2), FxMul(k.alpha, FxSq(k.ls))))))))
    [] k.k = "min" -> FxSum([i \in DOMAIN x |-> IF FxLe(x[i], y[i]) THEN x[i] ELSE y[i]])     \* a kernel of the user's
    [] k.k = "sum" -> FxAdd(Ker(k.a, x, y), Ker(k.b, x, y))
    [] OTHER -> FxMul(Ker(k.a, x, y), Ker(k.b, x, y))
\* error of a floating point evaluation on vectors whose products are exact
Floor == FxDiv(FxOne, Pow2(165))
RECURSIVE KerTol(_, _, _)
KerTol(k, x, y) ==
  CASE k.k = "sum" -> FxAdd(FxAdd(KerTol(k.a, x, y), KerTol(k.b, x, y)), FxMul(Eps(13), FxAbs(Ker(k, x, y))))
    [] k.k = "prod" -> LET a == FxAdd(FxAbs(Ker(k.a, x, y)), KerTol(k.a, x, y)) b == FxAdd(FxAbs(Ker(k.b, x, y)), KerTol(k.b, x, y)) IN
         FxAdd(Floor, FxAdd(FxMul(a, FxMul(FxI(2), KerTol(k.b, x, y))), FxMul(b, FxMul(FxI(2), KerTol(k.a, x, y)))))
    [] OTHER -> FxAdd(Floor, FxMul(Eps(12), FxAbs(Ker(k, x, y))))
KerMat(k, X, Y) == TLCEval([i \in DOMAIN X |-> [j \in DOMAIN Y |-> Ker(k, X[i], Y[j])]])
=============================================================================
