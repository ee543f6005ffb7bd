CONSTANTS
 Family = "normal"
 Rows = 3
 Xs = {0, 1}
 Ys = {0, 1, 7}
 Rounds = 8
 Lag = FALSE
 Saturated = FALSE
INIT Init
NEXT Next
INVARIANT ScoreHolds
INVARIANT NoFailure
INVARIANT Settles
CHECK_DEADLOCK FALSE
