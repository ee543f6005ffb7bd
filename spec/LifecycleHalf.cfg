CONSTANTS
 Good = {"d1", "d2"}
 Early = {"e"}
 Late = {"l"}
 Uneven = {"u"}
 Length = 4
 Continues = FALSE
 Halfway = TRUE
 Adds = FALSE
 Blind = FALSE
 Peeks = FALSE
 Queries = {"q1", "q2"}
SPECIFICATION Spec
INVARIANT Function
INVARIANT Untrained
INVARIANT NoGuess
INVARIANT Latest
INVARIANT OnlyGood
PROPERTY FailureKeeps
CHECK_DEADLOCK FALSE
