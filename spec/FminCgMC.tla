------------------------------ MODULE FminCgMC ------------------------------
(***************************************************************************)
(* The control structure of the line searches against every objective:     *)
(* each evaluation yields any cost level (Bottom..Top or NaN) and any      *)
(* slope along the direction (still down, flat enough, up, or NaN).        *)
(* Strict = FALSE: NaN costs and slopes pass the tests, as comparisons     *)
(* with NaN are false (refuted by NeverAbove).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Top, Iters, Max, Strict
VARIABLES pc, it, m, evals, f0, f1, f2, d2, failed, start
vars == <<pc, it, m, evals, f0, f1, f2, d2, failed, start>>
\* ACTIONS Direction Interpolate Extrapolate Accept Reject GiveUp Finish
NaN == -1
Costs == 0..Top \cup {NaN}
Slopes == {"down", "flat", "up", "nan"}
Init == /\ start \in 0..Top /\ pc = "outer" /\ it = 0 /\ m = 0 /\ evals = 1 /\ f0 = start /\ f1 = start /\ f2 = start /\ d2 = "down" /\ failed = FALSE
Eval == evals' = evals + 1 /\ f2' \in Costs /\ d2' \in Slopes
Direction == /\ pc = "outer" /\ it < Iters /\ it' = it + 1 /\ f0' = f1 /\ m' = Max /\ Eval /\ pc' = "search" /\ UNCHANGED <<f1, failed, start>>
\* sufficient decrease is a strictly lower level
TooHigh == IF Strict THEN f2 = NaN \/ f2 >= f1 ELSE f2 # NaN /\ f2 >= f1
Beyond == d2 = "up" \/ (Strict /\ d2 = "nan")
Interpolate == /\ pc = "search" /\ (TooHigh \/ Beyond) /\ m > 0 /\ m' = m - 1 /\ Eval /\ UNCHANGED <<pc, it, f0, f1, failed, start>>
Fits == ~TooHigh /\ ~Beyond
Extrapolate == /\ pc = "search" /\ Fits /\ d2 # "flat" /\ m > 0 /\ m' = m - 1 /\ Eval /\ UNCHANGED <<pc, it, f0, f1, failed, start>>
Accept == /\ pc = "search" /\ Fits /\ d2 = "flat" /\ f1' = f2 /\ failed' = FALSE /\ pc' = "outer" /\ UNCHANGED <<it, m, evals, f0, f2, d2, start>>
Lost == pc = "search" /\ m = 0 /\ ~(Fits /\ d2 = "flat")
Reject == /\ Lost /\ ~failed /\ f1' = f0 /\ failed' = TRUE /\ pc' = "outer" /\ UNCHANGED <<it, m, evals, f0, f2, d2, start>>
GiveUp == /\ Lost /\ failed /\ f1' = f0 /\ pc' = "end" /\ UNCHANGED <<it, m, evals, f0, f2, d2, failed, start>>
Finish == /\ pc = "outer" /\ it = Iters /\ pc' = "end" /\ UNCHANGED <<it, m, evals, f0, f1, f2, d2, failed, start>>
Next == Direction \/ Interpolate \/ Extrapolate \/ Accept \/ Reject \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NeverAbove == f1 # NaN /\ f1 <= start
WithinBudget == evals <= 1 + Iters * (1 + Max)
Descends == [][f1' <= f1]_vars
Ends == <>(pc = "end")
=============================================================================
