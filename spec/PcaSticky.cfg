CONSTANTS
 Dims = {2}
 Rows = {1, 3}
 Coords = {0, 1}
 Ns = {0, 1, 2}
 Trainings = 2
 Centers = {TRUE}
 Sticky = TRUE
 Columns = FALSE
SPECIFICATION Spec
INVARIANT Orthogonal
INVARIANT SameMatrix
INVARIANT Principal
INVARIANT First
INVARIANT Shaped
INVARIANT AsProjected
INVARIANT Rebuilds
PROPERTY Approaches
CHECK_DEADLOCK FALSE
