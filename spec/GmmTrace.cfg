CONSTANTS
 Start <- MStart
 Bad <- MBad
 After <- MAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
