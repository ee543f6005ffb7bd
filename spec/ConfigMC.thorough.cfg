CONSTANTS Top = 3 Steps = 6 Resets = FALSE Forgets = FALSE Live = FALSE Stale = FALSE
SPECIFICATION Spec
INVARIANTS BehavesAsConfigured ShowsItsOptions
CHECK_DEADLOCK FALSE
