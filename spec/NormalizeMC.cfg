CONSTANTS
 V = {0, 1, 3}
 N = 3
SPECIFICATION Spec
INVARIANTS Unit AllOrNothing
