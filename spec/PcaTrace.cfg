CONSTANTS
 Start <- PStart
 Bad <- PBad
 After <- PAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
