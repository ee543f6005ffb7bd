CONSTANTS
 Family = "bernoulli"
 Rows = 5
 Xs = {0, 1}
 Ys = {0, 1, 2}
 Rounds = 8
 Lag = FALSE
 Saturated = FALSE
INIT Init
NEXT Next
INVARIANT ScoreHolds
INVARIANT NoFailure
INVARIANT Settles
CHECK_DEADLOCK FALSE
