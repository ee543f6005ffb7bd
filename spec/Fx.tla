-------------------------------- MODULE Fx --------------------------------
(***************************************************************************)
(* Real arithmetic for the numeric oracles.                                *)
(*                                                                         *)
(* A big integer is a tuple <<s, d1, ..., dn>>: s is its sign (-1, 0, 1)   *)
(* and d1..dn are base-16384 limbs of its absolute value, least            *)
(* significant first, without leading zero limbs (zero is <<0>>).          *)
(*                                                                         *)
(* A real is a big integer N standing for N / 16384^FRAC (fixed point,     *)
(* resolution 2^-224).  <<2>> is NaN, <<3>> is +infinity, <<4>> -infinity: *)
(* they come from the implementation's traces only.                        *)
(*                                                                         *)
(* Everything is defined here in TLA+.  The operators marked (J) also have *)
(* a Java implementation with java.math.BigInteger, loaded as a TLC module *)
(* override for speed; FxTest.tla, run with and without the override,      *)
(* checks that both agree.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

FxB == 16384
FRAC == 16

Max0(a, b) == IF a >= b THEN a ELSE b

(************************ magnitudes (limb sequences) **********************)
Dig(x, i) == IF i <= Len(x) THEN x[i] ELSE 0

RECURSIVE Trim(_)
Trim(x) == IF x = <<>> THEN x ELSE IF x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x

RECURSIVE MagCmpFrom(_, _, _)
MagCmpFrom(x, y, i) == IF i = 0 THEN 0
                       ELSE IF Dig(x, i) < Dig(y, i) THEN -1
                       ELSE IF Dig(x, i) > Dig(y, i) THEN 1
                       ELSE MagCmpFrom(x, y, i - 1)
MagCmp(x, y) == MagCmpFrom(x, y, Max0(Len(x), Len(y)))

RECURSIVE MagAddFrom(_, _, _, _)
MagAddFrom(x, y, i, c) ==
  IF i > Max0(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(x, i) + Dig(y, i) + c IN <<s % FxB>> \o MagAddFrom(x, y, i + 1, s \div FxB)
MagAdd(x, y) == MagAddFrom(x, y, 1, 0)

RECURSIVE MagSubFrom(_, _, _, _)      \* x >= y
MagSubFrom(x, y, i, b) ==
  IF i > Len(x) THEN <<>>
  ELSE LET s == Dig(x, i) - Dig(y, i) - b IN
       IF s < 0 THEN <<s + FxB>> \o MagSubFrom(x, y, i + 1, 1) ELSE <<s>> \o MagSubFrom(x, y, i + 1, 0)
MagSub(x, y) == Trim(MagSubFrom(x, y, 1, 0))

RECURSIVE MagMul1(_, _, _, _)
MagMul1(x, d, i, c) == IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                       ELSE LET p == x[i] * d + c IN <<p % FxB>> \o MagMul1(x, d, i + 1, p \div FxB)
RECURSIVE MagMulFrom(_, _, _)
MagMulFrom(x, y, i) == IF i > Len(y) THEN <<>>
                       ELSE MagAdd(MagMul1(x, y[i], 1, 0), <<0>> \o MagMulFrom(x, y, i + 1))
MagMul(x, y) == Trim(MagMulFrom(x, y, 1))

RECURSIVE QDigit(_, _, _, _)          \* largest q in lo..hi with q*y <= r
QDigit(r, y, lo, hi) == IF lo = hi THEN lo
                        ELSE LET m == (lo + hi + 1) \div 2 IN
                             IF MagCmp(Trim(MagMul1(y, m, 1, 0)), r) <= 0 THEN QDigit(r, y, m, hi) ELSE QDigit(r, y, lo, m - 1)
RECURSIVE MagDivFrom(_, _, _, _, _)
MagDivFrom(x, y, i, r, q) ==
  IF i = 0 THEN Trim(q)
  ELSE LET r1 == Trim(<<x[i]>> \o r)
           d  == QDigit(r1, y, 0, FxB - 1)
       IN MagDivFrom(x, y, i - 1, MagSub(r1, Trim(MagMul1(y, d, 1, 0))), <<d>> \o q)
MagDiv(x, y) == MagDivFrom(x, y, Len(x), <<>>, <<>>)

Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
Mag(a) == Tail(a)

(****************************** big integers *******************************)
BZero == <<0>>
RECURSIVE NatMag(_)
NatMag(n) == IF n = 0 THEN <<>> ELSE <<n % FxB>> \o NatMag(n \div FxB)
BOfInt(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN Mk(1, NatMag(n)) ELSE Mk(-1, NatMag(-n))    \* (J)
BNeg(a) == IF a[1] = 0 THEN a ELSE [a EXCEPT ![1] = -a[1]]                                       \* (J)
BAdd(a, b) ==                                                                                   \* (J)
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MagAdd(Mag(a), Mag(b)))
  ELSE LET c == MagCmp(Mag(a), Mag(b)) IN
       IF c = 0 THEN BZero ELSE IF c > 0 THEN Mk(a[1], MagSub(Mag(a), Mag(b))) ELSE Mk(b[1], MagSub(Mag(b), Mag(a)))
BMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN BZero ELSE Mk(a[1] * b[1], MagMul(Mag(a), Mag(b)))   \* (J)
BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)                               \* (J)
              ELSE IF a[1] = 0 THEN 0 ELSE a[1] * MagCmp(Mag(a), Mag(b))
\* quotient truncated towards zero
BQuo(a, b) == IF a[1] = 0 THEN BZero ELSE Mk(a[1] * b[1], MagDiv(Mag(a), Mag(b)))               \* (J)

(************************** fixed point reals ******************************)
Zeros(n) == [i \in 1..n |-> 0]
ShiftUp(m) == IF m = <<>> THEN m ELSE Zeros(FRAC) \o m
ShiftDown(m) == SubSeq(m, FRAC + 1, Len(m))

FxFin(a) == a[1] <= 1
FxNaN == <<2>>
FxInf == <<3>>
FxNInf == <<4>>

FxI(n) == IF n = 0 THEN <<0>> ELSE LET b == BOfInt(n) IN Mk(b[1], ShiftUp(Mag(b)))               \* (J)
FxAdd(a, b) == BAdd(a, b)                                                                        \* (J)
FxNeg(a) == BNeg(a)                                                                              \* (J)
FxSub(a, b) == BAdd(a, BNeg(b))                                                                  \* (J)
FxMul(a, b) == LET p == BMul(a, b) IN IF Len(p) <= FRAC + 1 THEN BZero ELSE Mk(p[1], ShiftDown(Mag(p)))  \* (J)
FxDiv(a, b) == IF a[1] = 0 THEN BZero ELSE Mk(a[1] * b[1], MagDiv(ShiftUp(Mag(a)), Mag(b)))      \* (J)
FxCmp(a, b) == BCmp(a, b)                                                                        \* (J)

FxZero == <<0>>
FxOne == FxI(1)
FxLt(a, b) == FxCmp(a, b) < 0
FxLe(a, b) == FxCmp(a, b) <= 0
FxEq(a, b) == FxCmp(a, b) = 0
FxAbs(a) == IF a[1] < 0 THEN FxNeg(a) ELSE a
FxMax(a, b) == IF FxLt(a, b) THEN b ELSE a
FxMin(a, b) == IF FxLt(b, a) THEN b ELSE a
FxQ(n, d) == FxDiv(FxI(n), FxI(d))
FxSq(a) == FxMul(a, a)

RECURSIVE FxSumFrom(_, _)
FxSumFrom(s, i) == IF i > Len(s) THEN FxZero ELSE FxAdd(s[i], FxSumFrom(s, i + 1))
FxSum(s) == FxSumFrom(s, 1)                                                                      \* (J)
RECURSIVE FxDotFrom(_, _, _)
FxDotFrom(s, t, i) == IF i > Len(s) THEN FxZero ELSE FxAdd(FxMul(s[i], t[i]), FxDotFrom(s, t, i + 1))
FxDot(s, t) == FxDotFrom(s, t, 1)                                                                \* (J)

(* powers of ten, as reals: Eps(k) = 10^-k *)
RECURSIVE FxTen(_)
FxTen(k) == IF k = 0 THEN FxOne ELSE FxMul(FxTen(k - 1), FxI(10))
Eps(k) == FxDiv(FxOne, FxTen(k))

RECURSIVE FxPow(_, _)                  \* natural exponent
FxPow(a, n) == IF n = 0 THEN FxOne
               ELSE IF n % 2 = 0 THEN FxSq(FxPow(a, n \div 2)) ELSE FxMul(a, FxPow(a, n - 1))

(***************************** closeness ***********************************)
\* |a - b| <= tol * max(1, |b|): relative for large values, absolute below 1
FxClose(a, b, tol) == /\ FxFin(a) /\ FxFin(b)
                      /\ FxLe(FxAbs(FxSub(a, b)), FxMul(tol, FxMax(FxOne, FxAbs(b))))
\* |a - b| <= tol * |b| + floor
FxRel(a, b, tol, floor) == /\ FxFin(a) /\ FxFin(b)
                           /\ FxLe(FxAbs(FxSub(a, b)), FxAdd(floor, FxMul(tol, FxAbs(b))))
FxAbsClose(a, b, tol) == FxFin(a) /\ FxFin(b) /\ FxLe(FxAbs(FxSub(a, b)), tol)
SeqClose(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : FxClose(s[i], t[i], tol)

(********************** elementary functions *******************************)
\* Newton iteration from an upper estimate; exact to the resolution.
RECURSIVE SqrtIter(_, _, _)
SqrtIter(x, r, n) == LET r1 == FxDiv(FxAdd(r, FxDiv(x, r)), FxI(2))
                     IN IF n = 0 \/ FxLe(r, r1) THEN r ELSE SqrtIter(x, r1, n - 1)
FxSqrt(x) == IF x[1] = 0 THEN FxZero ELSE SqrtIter(x, FxMax(FxOne, x), 600)                       \* (J)

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN FxOne ELSE FxMul(FxI(2), Pow2(k - 1))

\* exp by argument reduction (x / 2^k) and Taylor series
RECURSIVE ExpSeries(_, _, _, _)
ExpSeries(x, t, n, acc) == IF t[1] = 0 \/ n > 60 THEN acc
                           ELSE LET t1 == FxDiv(FxMul(t, x), FxI(n)) IN ExpSeries(x, t1, n + 1, FxAdd(acc, t1))
RECURSIVE SqTimes(_, _)
SqTimes(y, k) == IF k = 0 THEN y ELSE SqTimes(FxSq(y), k - 1)
RECURSIVE Halvings(_)
Halvings(x) == IF FxLt(x, FxQ(1, 8)) THEN 0 ELSE 1 + Halvings(FxDiv(x, FxI(2)))
\* e^|x| then reciprocal for negative x (keeps relative precision)
FxExp(x) ==                                                                                       \* (J)
  LET a == FxAbs(x)
      k == Halvings(a)
      y == SqTimes(ExpSeries(FxDiv(a, Pow2(k)), FxOne, 1, FxOne), k)
  IN IF x[1] < 0 THEN FxDiv(FxOne, y) ELSE y
\* ln by Newton on exp from a crude start: y' = y + 2 (x - e^y) / (x + e^y)
RECURSIVE LnIter(_, _, _)
LnIter(x, y, n) == IF n = 0 THEN y
                   ELSE LET e == FxExp(y)
                            d == FxMul(FxI(2), FxDiv(FxSub(x, e), FxAdd(x, e)))
                        IN IF d[1] = 0 THEN y ELSE LnIter(x, FxAdd(y, d), n - 1)
FxLn(x) == LnIter(x, FxZero, 200)                                                                 \* (J)
FxTanh(x) == LET e == FxExp(FxMul(FxI(-2), FxAbs(x)))
                 t == FxDiv(FxSub(FxOne, e), FxAdd(FxOne, e))
             IN IF x[1] < 0 THEN FxNeg(t) ELSE t

\* Pi by Machin's formula
RECURSIVE AtanInvS(_, _, _, _)
AtanInvS(m, t, n, sg) == IF t[1] = 0 THEN FxZero
                         ELSE FxAdd(FxMul(FxI(sg), FxDiv(t, FxI(n))), AtanInvS(m, FxDiv(t, FxI(m * m)), n + 2, -sg))
AtanInv(m) == AtanInvS(m, FxDiv(FxOne, FxI(m)), 1, 1)
FxPi == FxSub(FxMul(FxI(16), AtanInv(5)), FxMul(FxI(4), AtanInv(239)))

\* erf by its Maclaurin series: 2/sqrt(pi) * sum (-1)^n x^(2n+1) / (n! (2n+1)), for |x| <= 6
RECURSIVE ErfSeries(_, _, _, _)
ErfSeries(x2, t, n, acc) ==
  LET term == FxDiv(t, FxI(2 * n + 1)) IN
  IF (t[1] = 0 \/ n > 400) THEN acc
  ELSE ErfSeries(x2, FxDiv(FxMul(FxNeg(t), x2), FxI(n + 1)), n + 1, FxAdd(acc, term))
FxErf(x) == IF FxLe(FxI(6), FxAbs(x)) THEN FxI(x[1])
            ELSE FxMul(FxDiv(FxI(2), FxSqrt(FxPi)), ErfSeries(FxSq(x), x, 0, FxZero))
=============================================================================
