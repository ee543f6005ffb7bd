CONSTANTS
 KName = "sqexp"
 Noises = {0, 1}
 Points = {0, 1, 3}
 Ys = {0, 2}
 Rows = {1, 2}
 Trainings = 2
 Stale = TRUE
INIT Init
NEXT Next
INVARIANT MeanIsPosterior
INVARIANT CovIsPosterior
INVARIANT Shrinks
INVARIANT Interpolates
INVARIANT FailsRightly
INVARIANT NeverBreaks
INVARIANT Chain
CHECK_DEADLOCK FALSE
