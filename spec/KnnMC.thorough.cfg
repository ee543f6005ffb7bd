CONSTANTS
 N = 3
 G = 2
 Dims = 2
 Early = FALSE
SPECIFICATION Spec
INVARIANTS Exact Sound VoteOk
