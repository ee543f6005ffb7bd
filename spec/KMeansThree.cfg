CONSTANTS
 N = 4
 G = 3
 K = 3
 Keep = TRUE
SPECIFICATION Spec
INVARIANTS Finite Hull Ends Fixed
PROPERTY Falls
