----------------------------- MODULE CostRegMC -----------------------------
(***************************************************************************)
(* A walk over small tables of outputs (or weights), one entry nudged at a *)
(* time.  All costs and penalties are convex, so a gradient belongs to one *)
(* exactly if it supports it: f(b) >= f(a) + g(a) (b - a) along every move *)
(* and its way back; f(b) <= f(a) + g(b) (b - a).                          *)
(***************************************************************************)
\* ACTIONS Nudge
EXTENDS CostReg, TLC
CONSTANTS Kinds, Rows, Cols, Levels, Goals, Plain
Tenths(k) == FxDiv(FxI(k), FxI(10))
VARIABLES kind, t, m, last
vars == <<kind, t, m, last>>
Table(S) == [1..Rows -> [1..Cols -> S]]
Reg(k) == CASE k = "l1" -> <<"l1", FxI(3)>> [] k = "l2" -> <<"l2", FxI(3)>> [] k = "en" -> <<"en", FxI(2), FxI(3)>> [] OTHER -> <<"none">>
IsCost(k) == k \in {"mse", "bce"}
Real(a) == [i \in 1..Rows |-> [j \in 1..Cols |-> Tenths(IF IsCost(kind) THEN a[i][j] ELSE 10 * (a[i][j] - 5))]]
F(a) == IF IsCost(kind) THEN Cost(kind, Real(a), Real(t), 1) ELSE IF Plain THEN PlainPenalty(Reg(kind), Real(a)) ELSE Penalty(Reg(kind), Real(a))
G(a, i, j) == IF IsCost(kind) THEN LET g == CostGrad(kind, Real(a), Real(t))[i][j] IN <<g, g>> ELSE Slope(Reg(kind), Real(a)[i][j], Rows)
Init == kind \in Kinds /\ t \in Table(Goals) /\ m \in Table(Levels) /\ last = <<>>
Nudge == \E i \in 1..Rows, j \in 1..Cols, v \in Levels :
  /\ v # m[i][j] /\ last = <<>>
  /\ m' = [m EXCEPT ![i][j] = v] /\ last' = <<m, i, j>>
  /\ UNCHANGED <<kind, t>>
Spec == Init /\ [][Nudge]_vars
Slack == Eps(15)
Supports == last # <<>> =>
  LET a == last[1] i == last[2] j == last[3]
      d == FxSub(Real(m)[i][j], Real(a)[i][j]) rise == FxSub(F(m), F(a))
      at == G(a, i, j) to == G(m, i, j)
      lo == IF d[1] > 0 THEN at[2] ELSE at[1] hi == IF d[1] > 0 THEN to[1] ELSE to[2]
  IN /\ FxLe(FxMul(lo, d), FxAdd(rise, Slack)) /\ FxLe(rise, FxAdd(FxMul(hi, d), Slack))
NotNegative == FxLe(FxNeg(Slack), F(m))
=============================================================================
