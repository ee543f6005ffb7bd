SPECIFICATION Spec
CONSTANTS Xs = {1, 3, 4} Rows = {3} T = 4 LamNum = 3 LamDen = 1 Trainings = 1 Forgetful = FALSE
INVARIANTS DualIsPrimal Counted Bounded Votes
PROPERTIES Kept
CHECK_DEADLOCK FALSE
