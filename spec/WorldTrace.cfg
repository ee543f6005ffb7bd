CONSTANTS
 Start <- WStart
 Bad <- WBad
 After <- WAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
