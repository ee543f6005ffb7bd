CONSTANTS
 N = 4
 G = 3
 K = 2
 Keep = FALSE
SPECIFICATION Spec
INVARIANTS Finite
