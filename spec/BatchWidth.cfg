CONSTANTS Cols = 2 Top = 1 Longest = 3 Batches = 2 Carry = FALSE Width = TRUE
SPECIFICATION Spec
INVARIANT RowByRow
CHECK_DEADLOCK FALSE
