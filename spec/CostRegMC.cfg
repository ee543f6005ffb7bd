CONSTANTS
 Kinds = {"mse", "bce"}
 Rows = 1
 Cols = 2
 Levels = {1, 3, 5, 6, 9}
 Goals = {0, 4, 10}
 Plain = FALSE
INIT Init
NEXT Nudge
INVARIANT Supports
INVARIANT NotNegative
CHECK_DEADLOCK FALSE
