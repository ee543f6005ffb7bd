CONSTANTS
 Start <- CRStart
 Bad <- CRBad
 After <- CRAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
