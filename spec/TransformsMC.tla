---------------------------- MODULE TransformsMC ----------------------------
(***************************************************************************)
(* One column of small integers through a transformer's life: scanned row  *)
(* by row into running statistics, mapped, mapped back; or refused.  All   *)
(* quantities are kept as integers: min-max images are multiples of        *)
(* 1/range, standardized ones are kept as (n v - sum) with the sum of      *)
(* their squares.  Check = FALSE leaves out the test for constant columns  *)
(* (refuted by NeverUndefined).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Kind, V, N, Check
VARIABLES x, i, mn, mx, sum, phase, out, back
vars == <<x, i, mn, mx, sum, phase, out, back>>
\* ACTIONS Scan Fit Refuse Map Undo
Top == 99
Init == /\ x \in UNION {[1..n -> {v - 2 : v \in V}] : n \in 0..N} /\ i = 1 /\ mn = Top /\ mx = -Top /\ sum = 0 /\ phase = "scan" /\ out = <<>> /\ back = <<>>
Scan == /\ phase = "scan" /\ i <= Len(x) /\ mn' = (IF x[i] < mn THEN x[i] ELSE mn) /\ mx' = (IF x[i] > mx THEN x[i] ELSE mx) /\ sum' = sum + x[i]
        /\ i' = i + 1 /\ UNCHANGED <<x, phase, out, back>>
Needed == IF Kind = "minmax" THEN 1 ELSE 2
Bad == Len(x) < Needed \/ (Check /\ mn = mx)
Fit == /\ phase = "scan" /\ i > Len(x) /\ ~Bad /\ phase' = "fitted" /\ UNCHANGED <<x, i, mn, mx, sum, out, back>>
Refuse == /\ phase = "scan" /\ i > Len(x) /\ Bad /\ phase' = "refused" /\ UNCHANGED <<x, i, mn, mx, sum, out, back>>
\* range times the image in [0, 1]; n times the distance from the mean
Img(v) == IF Kind = "minmax" THEN v - mn ELSE Len(x) * v - sum
Map == /\ phase = "fitted" /\ out' = [k \in DOMAIN x |-> Img(x[k])] /\ phase' = "mapped" /\ UNCHANGED <<x, i, mn, mx, sum, back>>
Undo == /\ phase = "mapped" /\ back' = [k \in DOMAIN out |-> IF Kind = "minmax" THEN out[k] + mn ELSE (out[k] + sum) \div Len(x)] /\ phase' = "undone" /\ UNCHANGED <<x, i, mn, mx, sum, out>>
Next == Scan \/ Fit \/ Refuse \/ Map \/ Undo
Spec == Init /\ [][Next]_vars
Total(s) == FoldLeft(LAMBDA a, v : a + v, 0, s)
Sq(s) == [k \in DOMAIN s |-> s[k] * s[k]]
Divisor == IF Kind = "minmax" THEN mx - mn ELSE Len(x) * Total(Sq(x)) - sum * sum     \* n^2 (n-1)/n times the variance
NeverUndefined == phase = "fitted" => Divisor > 0
Ends == phase \in {"mapped", "undone"} /\ Kind = "minmax" => {0, mx - mn} \subseteq {out[k] : k \in DOMAIN out} /\ \A k \in DOMAIN out : out[k] \in 0..(mx - mn)
\* mean zero, and the sum of squares n * Divisor: deviation one after dividing by the deviation
Moments == phase \in {"mapped", "undone"} /\ Kind = "standard" => Total(out) = 0 /\ Total(Sq(out)) = Len(x) * Divisor
Order == phase \in {"mapped", "undone"} => \A a, b \in DOMAIN x : x[a] < x[b] <=> out[a] < out[b]
BackAgain == phase = "undone" => back = x
RefusedOnly == phase = "refused" => Len(x) < Needed \/ Cardinality({x[k] : k \in DOMAIN x}) = 1
=============================================================================
