CONSTANTS
 N = 2
 G = 2
 Trainings = 2
 Border = TRUE
 Drop = FALSE
SPECIFICATION Spec
INVARIANTS Right Fresh Stable
