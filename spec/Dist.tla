-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* stats::dist: the laws a Gaussian and an Exponential object stand for.   *)
(* The state of an object is its law: [kind, mean, var] or [kind, rate].   *)
(* Querying and sampling never change it.                                  *)
(***************************************************************************)
EXTENDS Fx

Gauss(m, v) == [kind |-> "gaussian", mean |-> m, var |-> v]
Expo(l) == [kind |-> "exponential", rate |-> l]
None == [kind |-> "none"]

\* constructors
Made(ctor, p) == CASE ctor = "new" -> Gauss(p[1], p[2])
                   [] ctor = "from_std_dev" -> Gauss(p[1], FxSq(p[2]))
                   [] ctor = "default" -> Gauss(FxZero, FxOne)
                   [] ctor = "exp-new" -> Expo(p[1])
                   [] ctor = "exp-default" -> Expo(FxOne)

Half == FxQ(1, 2)
Sd(d) == FxSqrt(d.var)
Z2(d, x) == FxDiv(FxSq(FxSub(x, d.mean)), d.var)           \* squared standardised distance
Z(d, x) == FxDiv(FxSub(x, d.mean), Sd(d))
SqrtTwoPi == FxSqrt(FxMul(FxI(2), FxPi))
LnTwoPi == FxLn(FxMul(FxI(2), FxPi))
Phi(z) == FxMul(Half, FxAdd(FxOne, FxErf(FxDiv(z, FxSqrt(FxI(2))))))

Pdf(d, x) == IF d.kind = "gaussian" THEN FxDiv(FxExp(FxNeg(FxMul(Half, Z2(d, x)))), FxMul(SqrtTwoPi, Sd(d)))
             ELSE FxMul(d.rate, FxExp(FxNeg(FxMul(d.rate, x))))
LogPdf(d, x) == IF d.kind = "gaussian"
                THEN FxNeg(FxAdd(FxAdd(FxMul(Half, FxLn(d.var)), FxMul(Half, LnTwoPi)), FxMul(Half, Z2(d, x))))
                ELSE FxSub(FxLn(d.rate), FxMul(d.rate, x))
Cdf(d, x) == IF d.kind = "gaussian" THEN Phi(Z(d, x)) ELSE FxSub(FxOne, FxExp(FxNeg(FxMul(d.rate, x))))
\* the documented estimate of the normal distribution function (Polya)
PolyaCdf(z) == LET r == FxSqrt(FxSub(FxOne, FxExp(FxNeg(FxMul(FxDiv(FxI(2), FxPi), FxSq(z))))))
               IN FxMul(Half, FxAdd(FxOne, IF z[1] < 0 THEN FxNeg(r) ELSE r))
CdfTol == FxQ(33, 10000)

(* rounding: exponents carry a relative error, results a few ulps; a density taken as  *)
(* the exponential of its logarithm carries the rounding of the logarithm               *)
U == FxDiv(FxOne, Pow2(48))
Floor == FxDiv(FxOne, Pow2(170))
Expnt(d, x) == IF d.kind = "gaussian" THEN Z2(d, x) ELSE FxMul(d.rate, x)
Far(d, x) == IF d.kind = "gaussian" THEN FxLt(FxI(1400), Z2(d, x)) ELSE FxLt(FxI(700), FxMul(d.rate, x))
OkPdf(d, x, v) == IF Far(d, x) THEN FxFin(v) /\ FxLe(FxZero, v) /\ FxLe(v, Eps(40))
                  ELSE FxRel(v, Pdf(d, x), FxMul(U, FxAdd(FxI(16), Expnt(d, x))), Floor)
OkLogPdf(d, x, v) == /\ FxFin(v)
                     /\ FxLe(FxAbs(FxSub(v, LogPdf(d, x))), FxMul(U, FxAdd(FxI(50), Expnt(d, x))))
InUnit(v) == FxFin(v) /\ FxLe(FxZero, v) /\ FxLe(v, FxOne)
OkCdf(d, x, v) == /\ InUnit(v)
                  /\ IF Far(d, x) THEN FxAbsClose(v, IF d.kind = "gaussian" /\ FxLt(x, d.mean) THEN FxZero ELSE FxOne, IF d.kind = "gaussian" THEN CdfTol ELSE FxDiv(FxOne, Pow2(50)))
                     ELSE IF d.kind = "gaussian" THEN FxAbsClose(v, Cdf(d, x), CdfTol)
                     ELSE FxAbsClose(v, Cdf(d, x), FxDiv(FxOne, Pow2(50)))
OkSym(lo, hi) == FxAbsClose(FxAdd(lo, hi), FxOne, FxDiv(FxOne, Pow2(50)))
OkMid(v) == FxAbsClose(v, Half, FxDiv(FxOne, Pow2(50)))
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : FxLe(s[i], FxAdd(s[i + 1], FxDiv(FxOne, Pow2(51))))
\* a sample made from standard variate n
Sampled(d, n) == IF d.kind = "gaussian" THEN FxAdd(d.mean, FxMul(Sd(d), n)) ELSE FxDiv(n, d.rate)
OkSample(d, n, v) == /\ FxFin(v)
                     /\ FxLe(FxAbs(FxSub(v, Sampled(d, n))),
                             FxMul(U, IF d.kind = "gaussian" THEN FxAdd(FxAbs(d.mean), FxAbs(FxMul(Sd(d), n))) ELSE FxAbs(Sampled(d, n))))
\* cnt of m independent draws have probability p: within k standard deviations
OkCount(cnt, m, p, k) ==
  LET dev == FxSub(FxI(cnt), FxMul(FxI(m), p))
      v == FxAdd(FxMul(FxI(m), FxMul(p, FxSub(FxOne, p))), FxI(2))
  IN FxLe(FxSq(dev), FxMul(FxI(k * k), v))
=============================================================================
