CONSTANTS
 Start <- VStart
 Bad <- VBad
 After <- VAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
