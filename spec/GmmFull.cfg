CONSTANTS
 Opt = "full"
 Dim = 2
 Sizes = {4}
 Coords = {0, 2}
 K = 2
 Steps = 2
 Trainings = 1
 Lag = FALSE
 Shared = FALSE
SPECIFICATION Spec
INVARIANT SumsToOne
INVARIANT Whole
INVARIANT KeepsMean
INVARIANT KeepsSecond
INVARIANT Floors
INVARIANT Symmetric
INVARIANT Climbs
INVARIANT Orderless
PROPERTY FailedKeeps
CHECK_DEADLOCK FALSE
