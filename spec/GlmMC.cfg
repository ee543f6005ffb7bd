CONSTANTS
 Family = "poisson"
 Rows = 3
 Xs = {0, 1}
 Ys = {0, 1, 4, 20}
 Rounds = 8
 Lag = FALSE
 Saturated = FALSE
INIT Init
NEXT Next
INVARIANT ScoreHolds
INVARIANT NoFailure
INVARIANT Settles
CHECK_DEADLOCK FALSE
