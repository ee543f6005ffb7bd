-------------------------------- MODULE SvmMC --------------------------------
(***************************************************************************)
(* Training as the program does it, on every small data set and every      *)
(* sequence of draws, next to the primal Pegasos it stands for: weights    *)
(* w, with u = (1 - 1/t) w and w' = u + [y <u, x> < 1] y x / (lam t).      *)
(* Forgetful: the margin ignores the coefficients, as the crate once did.  *)
(***************************************************************************)
\* ACTIONS Train Draw Keep Refuse
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Xs, Rows, T, LamNum, LamDen, Trainings, Forgetful      \* lam = LamNum / LamDen; rows (1, x - 3)
VARIABLES x, y, a, w, t, phase, fit, n
vars == <<x, y, a, w, t, phase, fit, n>>
P(v) == <<1, v - 3>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
\* primal weights <<numerators, denominator>>
Init == x = <<>> /\ y = <<>> /\ a = <<>> /\ w = <<<<0, 0>>, 1>> /\ t = 0 /\ phase = "idle" /\ fit = <<>> /\ n = 0
Train == /\ phase = "idle" /\ n < Trainings /\ n' = n + 1
         /\ \E m \in Rows : x' \in [1..m -> Xs] /\ y' \in [1..m -> {1, -1}] /\ a' = [i \in 1..m |-> 0]
         /\ w' = <<<<0, 0>>, 1>> /\ t' = 1 /\ phase' = "train" /\ UNCHANGED fit
Refuse == phase = "idle" /\ n < Trainings /\ n' = n + 1 /\ UNCHANGED <<x, y, a, w, t, phase, fit>>      \* mispaired data
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Expansion(al, xs, ys, v) == Sum([j \in DOMAIN xs |-> (IF Forgetful THEN 1 ELSE al[j]) * ys[j] * Dot(P(v), P(xs[j]))])
\* y_i / (lam t) * expansion < 1
Margin(i) == y[i] * Expansion(a, x, y, x[i]) * LamDen < LamNum * t
\* the paper's kernelised form tests the weights after they shrank (1/t, not 1/(t - 1), before the sum)
Primal(i) == (t - 1) * y[i] * Dot(w[1], P(x[i])) < t * w[2]
RECURSIVE Gcd(_, _)
Gcd(p, q) == IF q = 0 THEN p ELSE Gcd(q, p % q)
Abs(v) == IF v < 0 THEN -v ELSE v
Cut(f) == LET g == Gcd(Gcd(f[2], Abs(f[1][1])), Abs(f[1][2])) IN <<<<f[1][1] \div g, f[1][2] \div g>>, f[2] \div g>>
\* (t - 1)/t w + hit y x / (lam t)
Moved(i, hit) == LET d == w[2] * t * LamNum IN
  Cut(<<[c \in 1..2 |-> (t - 1) * LamNum * w[1][c] + (IF hit THEN y[i] * P(x[i])[c] * LamDen * w[2] ELSE 0)], d>>)
Draw == /\ phase = "train" /\ t <= T
        /\ \E i \in DOMAIN x : /\ a' = [a EXCEPT ![i] = @ + (IF Margin(i) THEN 1 ELSE 0)]
                               /\ w' = Moved(i, Primal(i))
        /\ t' = t + 1 /\ UNCHANGED <<x, y, phase, fit, n>>
Keep == phase = "train" /\ t > T /\ fit' = <<x, y, a>> /\ phase' = "idle" /\ UNCHANGED <<x, y, a, w, t, n>>
Next == Train \/ Refuse \/ Draw \/ Keep
Spec == Init /\ [][Next]_vars
\* lam (t - 1) w = Sum_j a_j y_j x_j
DualIsPrimal == phase = "train" => \A c \in 1..2 : LamNum * (t - 1) * w[1][c] = LamDen * w[2] * Sum([j \in DOMAIN x |-> a[j] * y[j] * P(x[j])[c]])
Counted == phase = "train" => Sum(a) <= t - 1 /\ (t > 1 => Sum(a) >= 1) /\ \A j \in DOMAIN a : a[j] >= 0
\* |w| <= R / lam
Radius2 == LET r == {Dot(P(v), P(v)) : v \in Xs} IN CHOOSE m \in r : \A q \in r : q <= m
Bounded == phase = "train" => LamNum * LamNum * Dot(w[1], w[1]) <= Radius2 * LamDen * LamDen * w[2] * w[2]
\* the trained model votes like the primal weights of its training, rescaling does not matter, and refused data change nothing
Sign(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Votes == phase = "idle" /\ fit # <<>> => \A q \in 1..5 : Sign(Sum([j \in DOMAIN fit[1] |-> fit[3][j] * fit[2][j] * Dot(P(q), P(fit[1][j]))])) = Sign(Dot(w[1], P(q)))
Kept == [][phase' = "idle" /\ phase = "idle" => fit' = fit]_vars
=============================================================================
