------------------------------ MODULE CrossVal ------------------------------
(***************************************************************************)
(* analysis::cross_validation: k-fold validation of n rows, numbered 1..n. *)
(* The model is observed through the calls it and the score function get.  *)
(***************************************************************************)
EXTENDS RandTools

MayRun(n, k) == k > 1 /\ k <= n
\* fold sizes: n \div k and possibly one more
FoldSize(n, k, s) == s \in {n \div k, (n + k - 1) \div k}
\* test folds (sequence of sequences of rows) partition 1..n evenly
Folds(n, k, f) == /\ Len(f) = k
                  /\ \A i \in DOMAIN f : NoDup(f[i]) /\ FoldSize(n, k, Len(f[i]))
                  /\ FoldLeft(LAMBDA a, x : a + Len(x), 0, f) = n
                  /\ UNION {Ran(f[i]) : i \in DOMAIN f} = 1..n
\* number of ways to split n rows into folds of the given sizes (in order)
RECURSIVE Ways(_, _)
Ways(n, sizes) == IF sizes = <<>> THEN 1 ELSE Choose(n, Head(sizes)) * Ways(n - Head(sizes), Tail(sizes))
\* every ordered split equally likely; outcomes are sequences of ascending folds
UniformFolds(n, k, exact, den, hist) ==
  LET w == Ways(n, [i \in 1..k |-> Len(hist[1][1][i])]) IN
  /\ Total(hist) = den
  /\ \A i \in DOMAIN hist : \A j \in 1..k : Len(hist[i][1][j]) = Len(hist[1][1][j])
  /\ exact => Len(hist) = w
  /\ \A i \in DOMAIN hist : IF exact THEN hist[i][2] * w = den ELSE FairCount(hist[i][2], den, w)
\* probability that two given rows come into one fold
SameFold(n, k) == LET q == n \div k r == n % k IN FxDiv(FxI(r * (q + 1) * q + (k - r) * q * (q - 1)), FxI(n * (n - 1)))
=============================================================================
