CONSTANTS
 Opt = "reg"
 Dim = 1
 Sizes = {2, 3}
 Coords = {0, 1}
 K = 2
 Steps = 1
 Trainings = 2
 Lag = FALSE
 Shared = TRUE
SPECIFICATION Spec
INVARIANT SumsToOne
INVARIANT Whole
INVARIANT KeepsMean
INVARIANT KeepsSecond
INVARIANT Floors
INVARIANT Symmetric
INVARIANT Climbs
INVARIANT Orderless
PROPERTY FailedKeeps
CHECK_DEADLOCK FALSE
