CONSTANTS Cols = 2 Top = 1 Longest = 2 Batches = 2 Carry = TRUE Width = FALSE
SPECIFICATION Spec
INVARIANT RowByRow
CHECK_DEADLOCK FALSE
