CONSTANTS
 Top = 2
 Iters = 2
 Max = 2
 Strict = FALSE
SPECIFICATION Spec
INVARIANTS NeverAbove WithinBudget
PROPERTIES Descends Ends
