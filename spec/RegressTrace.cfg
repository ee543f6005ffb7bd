CONSTANTS
 Start <- RStart
 Bad <- RBad
 After <- RAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
