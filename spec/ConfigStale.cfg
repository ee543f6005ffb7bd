CONSTANTS Top = 2 Steps = 4 Resets = FALSE Forgets = FALSE Live = FALSE Stale = TRUE
SPECIFICATION Spec
INVARIANTS BehavesAsConfigured
CHECK_DEADLOCK FALSE
