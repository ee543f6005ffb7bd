CONSTANTS
 N = 3
 D = 2
 C = 3
 MinRows = 1
 Trainings = 1
 Atomic = TRUE
SPECIFICATION Spec
INVARIANTS Whole Maximal NotEmpty Smoothed
