CONSTANTS
 N = 3
 D = 1
 C = 2
 MinRows = 2
 Trainings = 2
 Atomic = TRUE
SPECIFICATION Spec
INVARIANTS Whole Maximal NotEmpty Smoothed
