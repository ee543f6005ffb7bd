CONSTANTS
 N = 4
 G = 3
 Trainings = 1
 Border = TRUE
 Drop = TRUE
SPECIFICATION Spec
INVARIANTS Right Fresh Stable
