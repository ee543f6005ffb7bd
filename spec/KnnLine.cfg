CONSTANTS
 N = 4
 G = 2
 Dims = 1
 Early = FALSE
SPECIFICATION Spec
INVARIANTS Exact Sound VoteOk
