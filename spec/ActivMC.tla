------------------------------ MODULE ActivMC ------------------------------
(* The stated functions belong together: checked on a grid walked by x.    *)
EXTENDS Activ, TLC
CONSTANT N
\* ACTIONS Evaluate
VARIABLES fun, x, y
vars == <<fun, x, y>>
X(i) == FxQ(i, 4)
Init == fun \in Funs /\ x = -N /\ y = F(fun, X(-N))
Evaluate == x < N /\ x' = x + 1 /\ y' = F(fun, X(x + 1)) /\ UNCHANGED fun
Spec == Init /\ [][Evaluate]_vars

H == FxDiv(FxOne, Pow2(60))
Quotient == FxDiv(FxSub(F(fun, FxAdd(X(x), H)), F(fun, FxSub(X(x), H))), FxMul(FxI(2), H))
Derivative == FxRel(Quotient, D(fun, X(x)), Eps(20), Eps(20))
FromOutput == FxRel(DOut(fun, y), D(fun, X(x)), Eps(20), Eps(30))
Inverse == FxClose(Inv(fun, y), X(x), Eps(20))
Range == InRange(fun, y) /\ Bounded(fun, y)
Increasing == [][FxLt(y, y')]_vars
=============================================================================
