CONSTANTS
 KName = "sqexp"
 Noises = {0, 1}
 Points = {0, 1, 3}
 Ys = {0, 2}
 Rows = {1, 2, 3}
 Trainings = 1
 Stale = FALSE
INIT Init
NEXT Next
INVARIANT MeanIsPosterior
INVARIANT CovIsPosterior
INVARIANT Shrinks
INVARIANT Interpolates
INVARIANT FailsRightly
INVARIANT NeverBreaks
INVARIANT Chain
CHECK_DEADLOCK FALSE
