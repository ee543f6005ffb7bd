CONSTANTS Cols = 2 Top = 1 Longest = 3 Batches = 2 Carry = FALSE Width = FALSE
SPECIFICATION Spec
INVARIANTS RowByRow ByDefinition
CHECK_DEADLOCK FALSE
