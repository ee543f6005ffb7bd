CONSTANTS
 Kinds = {"mse", "bce"}
 Rows = 1
 Cols = 2
 Levels = {1, 2, 3, 4, 5, 6, 7, 8, 9}
 Goals = {0, 4, 5, 10}
 Plain = FALSE
INIT Init
NEXT Nudge
INVARIANT Supports
INVARIANT NotNegative
CHECK_DEADLOCK FALSE
