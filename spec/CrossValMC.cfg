CONSTANTS
 N = 5
 Even = TRUE
SPECIFICATION Spec
INVARIANTS Disjoint Partition Complete
