------------------------------- MODULE FxTest -------------------------------
(* Agreement of the TLA+ definitions of Fx with their Java overrides: run once *)
(* with and once without the override; the printed values must be identical,  *)
(* and the algebraic ASSUMEs must hold in both runs.                          *)
EXTENDS Fx, TLC
VARIABLE u
Ns == {-70000, -16385, -1, 0, 1, 7, 16384, 40000, 2000000000}
N == 6
Xs == <<FxQ(-7, 3), FxQ(22, 7), FxZero, FxQ(1, 1000), FxI(-2), FxQ(-1, 16384)>>
ASSUME \A a, b \in Ns : /\ BCmp(BOfInt(a), BOfInt(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
                        /\ BAdd(BOfInt(a \div 2), BOfInt(b \div 4)) = BOfInt(a \div 2 + b \div 4)
                        /\ (b # 0 => BQuo(BMul(BOfInt(a), BOfInt(b)), BOfInt(b)) = BOfInt(a))
ASSUME \A i \in 1..N, j \in 1..N : FxSub(FxAdd(Xs[i], Xs[j]), Xs[j]) = Xs[i]
ASSUME FxAbsClose(FxPi, FxDiv(FxI(314159265), FxI(100000000)), Eps(8))
ASSUME PrintT(<<"mul", [i \in 1..N |-> [j \in 1..N |-> <<FxMul(Xs[i], Xs[j]), FxCmp(Xs[i], Xs[j]), IF j # 3 THEN FxDiv(Xs[i], Xs[j]) ELSE 0>>]]>>)
ASSUME PrintT(<<"sum", FxSum(Xs), FxDot(Xs, Xs)>>)
ASSUME PrintT(<<"sqrt", FxSqrt(FxI(3))>>)
ASSUME PrintT(<<"exp", FxExp(Xs[1]), FxExp(FxI(2))>>)
Init == u = 0
Next == UNCHANGED u
Spec == Init /\ [][Next]_u
=============================================================================
