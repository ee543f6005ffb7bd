CONSTANTS
 Opt = "reg"
 Dim = 1
 Sizes = {3, 4, 5}
 Coords = {0, 1}
 K = 3
 Steps = 1
 Trainings = 2
 Lag = FALSE
 Shared = FALSE
SPECIFICATION Spec
INVARIANT SumsToOne
INVARIANT Whole
INVARIANT KeepsMean
INVARIANT KeepsSecond
INVARIANT Floors
INVARIANT Symmetric
INVARIANT Climbs
INVARIANT Orderless
PROPERTY FailedKeeps
CHECK_DEADLOCK FALSE
