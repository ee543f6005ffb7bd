CONSTANTS
 Opt = "full"
 Dim = 2
 Sizes = {3, 4}
 Coords = {0, 1}
 K = 2
 Steps = 4
 Trainings = 1
 Lag = FALSE
 Shared = FALSE
SPECIFICATION Spec
INVARIANT SumsToOne
INVARIANT Whole
INVARIANT KeepsMean
INVARIANT KeepsSecond
INVARIANT Floors
INVARIANT Symmetric
INVARIANT Climbs
INVARIANT Orderless
PROPERTY FailedKeeps
CHECK_DEADLOCK FALSE
