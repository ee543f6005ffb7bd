------------------------------ MODULE LinRegMC ------------------------------
(***************************************************************************)
(* Linear regression as it runs: the normal equations of the design matrix *)
(* are assembled, eliminated column by column (Gauss-Jordan with pivoting, *)
(* without fractions: each row is one equation  a b = r  of integers), and *)
(* either read off or, without a pivot, given up; a model keeps the        *)
(* coefficients of its last successful training.                           *)
(***************************************************************************)
\* ACTIONS Assemble Eliminate GiveUp Finish
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Rows, Xs, Ys, Trainings, Intercept, Fresh
VARIABLES x, y, m, col, phase, par, of, n
vars == <<x, y, m, col, phase, par, of, n>>
Sum(s) == FoldLeft(+, 0, s)
RowsOf(a) == [i \in DOMAIN a |-> <<Intercept, a[i]>>]
K == 2
Cell(X, Y, i, j) == IF j = K + 1 THEN Sum([r \in DOMAIN X |-> X[r][i] * Y[r]]) ELSE Sum([r \in DOMAIN X |-> X[r][i] * X[r][j]])
Equations(X, Y) == [i \in 1..K |-> [j \in 1..(K + 1) |-> Cell(X, Y, i, j)]]
Empty == [i \in 1..K |-> [j \in 1..(K + 1) |-> 0]]
Init == x = <<>> /\ y = <<>> /\ m = Empty /\ col = 1 /\ phase = "idle" /\ par = <<>> /\ of = <<>> /\ n = 0
Assemble ==
  /\ phase = "idle" /\ n < Trainings
  /\ x' \in [1..Rows -> Xs] /\ y' \in [1..Rows -> Ys]
  /\ m' = LET e == Equations(RowsOf(x'), y') IN [i \in 1..K |-> [j \in 1..(K + 1) |-> e[i][j] + (IF Fresh THEN 0 ELSE m[i][j])]]
  /\ phase' = "solve" /\ col' = 1 /\ n' = n + 1 /\ UNCHANGED <<par, of>>
Abs(v) == IF v < 0 THEN -v ELSE v
Eliminate ==
  /\ phase = "solve" /\ col <= K
  /\ \E p \in col..K :
       /\ m[p][col] # 0 /\ \A q \in col..K : Abs(m[q][col]) <= Abs(m[p][col])
       /\ m' = LET s == [m EXCEPT ![p] = m[col], ![col] = m[p]] IN
               [i \in 1..K |-> IF i = col THEN s[i] ELSE [j \in 1..(K + 1) |-> s[i][j] * s[col][col] - s[i][col] * s[col][j]]]
  /\ col' = col + 1 /\ UNCHANGED <<x, y, phase, par, of, n>>
GiveUp == phase = "solve" /\ col <= K /\ (\A p \in col..K : m[p][col] = 0) /\ phase' = "idle" /\ m' = Empty /\ UNCHANGED <<x, y, col, par, of, n>>
Finish == phase = "solve" /\ col > K /\ par' = [i \in 1..K |-> <<m[i][K + 1], m[i][i]>>] /\ of' = <<x, y>> /\ phase' = "idle" /\ UNCHANGED <<x, y, m, col, n>>
Next == Assemble \/ Eliminate \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- the sum of squared residuals at a / d (a common denominator), times d^2
Square(X, Y, a, d) == Sum([r \in DOMAIN X |-> LET e == a[1] * X[r][1] + a[2] * X[r][2] - Y[r] * d IN e * e])
Least == par # <<>> =>
  LET X == RowsOf(of[1]) d == par[1][2] * par[2][2] a == <<par[1][1] * par[2][2], par[2][1] * par[1][2]>> IN
  \* no point at a denominator's distance, or on a coarse grid, is better
  /\ \A u \in -1..1, v \in -1..1 : Square(X, of[2], a, d) <= Square(X, of[2], <<a[1] + u, a[2] + v>>, d)
  /\ \A j \in 1..K : Sum([r \in DOMAIN X |-> X[r][j] * (a[1] * X[r][1] + a[2] * X[r][2] - of[2][r] * d)]) = 0
Solvable == phase = "solve" /\ Cardinality({x[i] : i \in DOMAIN x}) > 1 /\ Intercept # 0 => ENABLED (Eliminate \/ Finish)
Latest == phase = "idle" /\ par # <<>> => of = <<x, y>> \/ Cardinality({x[i] : i \in DOMAIN x}) = 1
=============================================================================
