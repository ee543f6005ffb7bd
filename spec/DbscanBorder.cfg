CONSTANTS
 N = 4
 G = 3
 Trainings = 1
 Border = FALSE
 Drop = TRUE
SPECIFICATION Spec
INVARIANTS Right Fresh Stable
