CONSTANTS
 Nets <- Small
 Weights = {0, 1, 2, 3}
 Inputs = {0, 1, 2}
 Rows = 1
 Targets = {0, 2}
 DropBias = TRUE
 IndexFirst = TRUE
INIT Init
NEXT Next
INVARIANT ForwardRight
INVARIANT IndexRight
INVARIANT GradRight
CHECK_DEADLOCK FALSE
