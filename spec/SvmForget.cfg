SPECIFICATION Spec
CONSTANTS Xs = {1, 3, 4} Rows = {1, 2} T = 5 LamNum = 1 LamDen = 2 Trainings = 2 Forgetful = TRUE
INVARIANTS DualIsPrimal Counted Bounded Votes
PROPERTIES Kept
CHECK_DEADLOCK FALSE
