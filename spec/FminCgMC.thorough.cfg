CONSTANTS
 Top = 5
 Iters = 8
 Max = 6
 Strict = TRUE
SPECIFICATION Spec
INVARIANTS NeverAbove WithinBudget
PROPERTIES Descends Ends
