CONSTANTS
 N = 4
 G = 2
 Dims = 1
 Early = TRUE
SPECIFICATION Spec
INVARIANTS Exact Sound 
