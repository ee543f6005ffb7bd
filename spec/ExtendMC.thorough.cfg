CONSTANTS
 Labels = {1, 2, 3}
 Most = 6
 Rounds = 5
 Early = FALSE
 Lone = FALSE
 Lag = FALSE
SPECIFICATION Spec
INVARIANT Taken
INVARIANT Whole
INVARIANT Kept
INVARIANT Fresh
CHECK_DEADLOCK FALSE
