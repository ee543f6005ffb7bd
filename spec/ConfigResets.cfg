CONSTANTS Top = 2 Steps = 4 Resets = TRUE Forgets = FALSE Live = FALSE Stale = FALSE
SPECIFICATION Spec
INVARIANTS BehavesAsConfigured
CHECK_DEADLOCK FALSE
