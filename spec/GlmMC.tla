------------------------------- MODULE GlmMC -------------------------------
(***************************************************************************)
(* Iteratively reweighted least squares as the program runs it, in exact   *)
(* arithmetic: eight rounds of weighted least squares on the working       *)
(* response, from means near the targets.  Lag: the working response is    *)
(* formed with the means of the round before (as the program once did).    *)
(***************************************************************************)
\* ACTIONS Data Begin Solve Update Fail
EXTENDS Regress, TLC, FiniteSets
CONSTANTS Family, Rows, Xs, Ys, Rounds, Lag, Saturated
Fam == CASE Family = "bernoulli" -> [link |-> "logit", v |-> "binary"] [] Family = "poisson" -> [link |-> "log", v |-> "mean"] [] OTHER -> [link |-> "id", v |-> "one"]
VARIABLES x, y, mu, z, b, round, phase
vars == <<x, y, mu, z, b, round, phase>>
Init == x = <<>> /\ y = <<>> /\ mu = <<>> /\ z = <<>> /\ b = <<FxZero, FxZero>> /\ round = 0 /\ phase = "new"
Tiny == Eps(10)
\* Saturated: Bernoulli means start at the targets themselves, just off 0 and 1 (as the program once did)
StartMu(t) == CASE Family = "bernoulli" /\ Saturated -> (IF t = 0 THEN Tiny ELSE IF t = 2 THEN FxSub(FxOne, Tiny) ELSE FxDiv(FxI(t), FxI(2)))
                [] Family = "bernoulli" -> FxDiv(FxI(t + 1), FxI(4))
                [] Family = "poisson" -> (IF t = 0 THEN Tiny ELSE FxI(t)) [] OTHER -> FxI(t)
Target(t) == IF Family = "bernoulli" THEN FxDiv(FxI(t), FxI(2)) ELSE FxI(t)
X == [i \in DOMAIN x |-> <<FxOne, FxI(x[i])>>]
Y == [i \in DOMAIN y |-> Target(y[i])]
YBar(m) == [i \in DOMAIN m |-> FxMul(LinkSlope(Fam.link, m[i]), FxSub(Y[i], m[i]))]
Weight(m) == LET v == FxDiv(FxOne, FxMul(VarOf(Fam.v, m), FxSq(LinkSlope(Fam.link, m)))) IN IF Family = "bernoulli" /\ FxLe(v, Eps(5)) THEN Eps(5) ELSE v
\* data whose means are neither at the edge of their range nor far apart: no group of equal rows has a mean at the edge
Group(k) == {i \in DOMAIN x : x[i] = k}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN y[i] + Total(S \ {i})
Inner(k) == CASE Family = "bernoulli" -> Total(Group(k)) > 0 /\ Total(Group(k)) < 2 * Cardinality(Group(k)) [] Family = "poisson" -> Total(Group(k)) > 0 [] OTHER -> TRUE
Fair == Cardinality({x[i] : i \in DOMAIN x}) > 1 /\ \A i \in DOMAIN x : Inner(x[i])
Data == /\ phase = "new"
        /\ x' \in {f \in [1..Rows -> Xs] : \A i \in 1..(Rows - 1) : f[i] <= f[i + 1]}
        /\ y' \in [1..Rows -> Ys]
        /\ (Fair \/ Cardinality({x[i] : i \in DOMAIN x}) = 1)'
        /\ mu' = [i \in 1..Rows |-> StartMu(y'[i])]
        /\ phase' = "begin" /\ UNCHANGED <<z, b, round>>
Begin == phase = "begin" /\ z' = (IF Lag THEN mu ELSE [i \in DOMAIN mu |-> FxAdd(LinkOf(Fam.link, mu[i]), YBar(mu)[i])]) /\ phase' = "solve" /\ UNCHANGED <<x, y, mu, b, round>>
\* weighted least squares by two equations
SumW(F(_)) == FxSum([i \in DOMAIN x |-> FxMul(Weight(mu[i]), F(i))])
A11 == SumW(LAMBDA i : FxOne)
A12 == SumW(LAMBDA i : X[i][2])
A22 == SumW(LAMBDA i : FxSq(X[i][2]))
C1 == SumW(LAMBDA i : z[i])
C2 == SumW(LAMBDA i : FxMul(X[i][2], z[i]))
DetA == FxSub(FxMul(A11, A22), FxSq(A12))
Solve == /\ phase = "solve" /\ round < Rounds /\ DetA[1] # 0
         /\ LET d == DetA IN b' = <<FxDiv(FxSub(FxMul(C1, A22), FxMul(C2, A12)), d), FxDiv(FxSub(FxMul(A11, C2), FxMul(A12, C1)), d)>>
         /\ phase' = IF FxLe(FxAdd(FxAbs(FxSub(b'[1], b[1])), FxAbs(FxSub(b'[2], b[2]))), Tiny) THEN "done" ELSE "update"
         /\ round' = round + 1 /\ UNCHANGED <<x, y, mu, z>>
Fail == phase = "solve" /\ round < Rounds /\ DetA[1] = 0 /\ phase' = "failed" /\ UNCHANGED <<x, y, mu, z, b, round>>
\* means which are not, or not distinguishable from the edge of their range, in floating point: what follows is not a number
Lost == \E i \in DOMAIN x : LET f == FxDot(X[i], b) IN FxLe(FxI(36), FxAbs(f)) /\ Family # "normal"
Overflow == phase = "update" /\ Lost /\ phase' = "lost" /\ UNCHANGED <<x, y, mu, z, b, round>>
Update == /\ phase = "update" /\ ~Lost
          /\ LET f == [i \in DOMAIN x |-> FxDot(X[i], b)] m == [i \in DOMAIN x |-> MeanOf(Fam.link, f[i])] IN
             mu' = m /\ z' = [i \in DOMAIN x |-> FxAdd(f[i], YBar(IF Lag THEN mu ELSE m)[i])]
          /\ phase' = "solve" /\ UNCHANGED <<x, y, b, round>>
Settle == phase = "solve" /\ round = Rounds /\ phase' = "done" /\ UNCHANGED <<x, y, mu, z, b, round>>
Next == Data \/ Begin \/ Solve \/ Fail \/ Update \/ Overflow \/ Settle
Spec == Init /\ [][Next]_vars
ScoreHolds == phase = "done" /\ Fair =>
  LET m == [i \in DOMAIN x |-> MeanOf(Fam.link, FxDot(X[i], b))] IN \A j \in 1..2 : FxLe(FxAbs(LikeSlope(Fam, X, Y, m, j)), FxMul(Eps(6), LikeTerms(Fam, X, Y, m, j)))
Settles == Fair => phase # "lost"
NoFailure == phase = "failed" => Cardinality({x[i] : i \in DOMAIN x}) = 1
=============================================================================
