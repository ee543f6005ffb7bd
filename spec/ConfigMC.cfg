CONSTANTS Top = 2 Steps = 4 Resets = FALSE Forgets = FALSE Live = FALSE Stale = FALSE
SPECIFICATION Spec
INVARIANTS BehavesAsConfigured ShowsItsOptions
CHECK_DEADLOCK FALSE
