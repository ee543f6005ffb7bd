CONSTANTS
 Rows = 3
 Xs = {0, 2, 3}
 Ys = {0, 1}
 Trainings = 1
 Intercept = 1
 Fresh = TRUE
INIT Init
NEXT Next
INVARIANT Least
INVARIANT Solvable
INVARIANT Latest
CHECK_DEADLOCK FALSE
