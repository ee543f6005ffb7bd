CONSTANTS Top = 2 Steps = 4 Resets = FALSE Forgets = TRUE Live = FALSE Stale = FALSE
SPECIFICATION Spec
INVARIANTS BehavesAsConfigured
CHECK_DEADLOCK FALSE
