CONSTANTS
 Rows = 3
 Levels = {2, 5, 6, 9}
 Xs = {4, 5, 8}
 Trainings = 1
 Mean = TRUE
INIT Init
NEXT Next
INVARIANT CostAgrees
INVARIANT Supports
INVARIANT Kept
CHECK_DEADLOCK FALSE
