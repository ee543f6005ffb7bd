CONSTANTS
 Start <- BStart
 Bad <- BBad
 After <- BAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
