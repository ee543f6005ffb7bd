CONSTANTS
 Labels = {1, 2, 3}
 Most = 3
 Rounds = 2
 Early = FALSE
 Lone = TRUE
 Lag = FALSE
SPECIFICATION Spec
INVARIANT Taken
INVARIANT Whole
INVARIANT Kept
INVARIANT Fresh
CHECK_DEADLOCK FALSE
