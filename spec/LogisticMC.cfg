CONSTANTS
 Rows = 2
 Levels = {3, 5, 6, 8}
 Xs = {4, 5, 8}
 Trainings = 1
 Mean = TRUE
INIT Init
NEXT Next
INVARIANT CostAgrees
INVARIANT Supports
INVARIANT Kept
CHECK_DEADLOCK FALSE
