CONSTANTS Top = 2 Steps = 4 Resets = FALSE Forgets = FALSE Live = TRUE Stale = FALSE
SPECIFICATION Spec
INVARIANTS BehavesAsConfigured
CHECK_DEADLOCK FALSE
