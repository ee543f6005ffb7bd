CONSTANTS
 N = 3
 G = 1
 Dims = 2
 Early = FALSE
SPECIFICATION Spec
INVARIANTS Exact Sound
