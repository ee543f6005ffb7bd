CONSTANTS
 Rows = 3
 Xs = {0, 1, 2, 4}
 Ys = {0, 1, 3}
 Trainings = 1
 Intercept = 1
 Fresh = TRUE
INIT Init
NEXT Next
INVARIANT Least
INVARIANT Solvable
INVARIANT Latest
CHECK_DEADLOCK FALSE
