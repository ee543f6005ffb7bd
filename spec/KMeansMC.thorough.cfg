CONSTANTS
 N = 5
 G = 5
 K = 2
 Keep = TRUE
SPECIFICATION Spec
INVARIANTS Finite Hull Ends Fixed
PROPERTY Falls
