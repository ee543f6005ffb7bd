CONSTANTS
 Opt = "full"
 Dim = 1
 Sizes = {2, 3, 4}
 Coords = {0, 1, 3}
 K = 2
 Steps = 3
 Trainings = 1
 Lag = TRUE
 Shared = FALSE
SPECIFICATION Spec
INVARIANT SumsToOne
INVARIANT Whole
INVARIANT KeepsMean
INVARIANT KeepsSecond
INVARIANT Floors
INVARIANT Symmetric
INVARIANT Climbs
INVARIANT Orderless
PROPERTY FailedKeeps
CHECK_DEADLOCK FALSE
