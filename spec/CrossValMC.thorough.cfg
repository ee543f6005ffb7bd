CONSTANTS
 N = 6
 Even = TRUE
SPECIFICATION Spec
INVARIANTS Disjoint Partition Complete
