CONSTANTS
 Nets <- Larger
 Weights = {0, 1, 2}
 Inputs = {1, 3}
 Rows = 2
 Targets = {1}
 DropBias = TRUE
 IndexFirst = TRUE
INIT Init
NEXT Next
INVARIANT ForwardRight
INVARIANT IndexRight
INVARIANT GradRight
CHECK_DEADLOCK FALSE
