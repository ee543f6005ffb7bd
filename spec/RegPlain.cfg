CONSTANTS
 Kinds = {"l1", "l2", "en"}
 Rows = 2
 Cols = 1
 Levels = {0, 3, 4, 5, 6, 7, 9}
 Goals = {0}
 Plain = TRUE
INIT Init
NEXT Nudge
INVARIANT Supports
INVARIANT NotNegative
CHECK_DEADLOCK FALSE
