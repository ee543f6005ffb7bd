CONSTANTS
 N = 5
 G = 4
 Trainings = 1
 Border = TRUE
 Drop = TRUE
SPECIFICATION Spec
INVARIANTS Right Fresh Stable
