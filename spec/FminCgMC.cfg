CONSTANTS
 Top = 3
 Iters = 4
 Max = 3
 Strict = TRUE
SPECIFICATION Spec
INVARIANTS NeverAbove WithinBudget
PROPERTIES Descends Ends
