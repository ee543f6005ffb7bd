CONSTANTS
 Labels = {1, 2, 3}
 Most = 4
 Rounds = 3
 Early = FALSE
 Lone = FALSE
 Lag = FALSE
SPECIFICATION Spec
INVARIANT Taken
INVARIANT Whole
INVARIANT Kept
INVARIANT Fresh
CHECK_DEADLOCK FALSE
