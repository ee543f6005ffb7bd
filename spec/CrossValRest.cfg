CONSTANTS
 N = 5
 Even = FALSE
SPECIFICATION Spec
INVARIANTS Disjoint Partition Complete
