CONSTANTS
 Family = "bernoulli"
 Rows = 6
 Xs = {0, 1, 2}
 Ys = {0, 1, 2}
 Rounds = 8
 Lag = FALSE
 Saturated = FALSE
INIT Init
NEXT Next
INVARIANT ScoreHolds
INVARIANT NoFailure
INVARIANT Settles
CHECK_DEADLOCK FALSE
