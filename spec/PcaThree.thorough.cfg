CONSTANTS
 Dims = {3}
 Rows = {2, 3}
 Coords = {0, 1}
 Ns = {0, 1, 2}
 Trainings = 1
 Centers = {TRUE, FALSE}
 Sticky = FALSE
 Columns = FALSE
SPECIFICATION Spec
INVARIANT Orthogonal
INVARIANT SameMatrix
INVARIANT Principal
INVARIANT First
INVARIANT Shaped
INVARIANT AsProjected
INVARIANT Rebuilds
PROPERTY Approaches
CHECK_DEADLOCK FALSE
