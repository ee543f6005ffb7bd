CONSTANTS
 Start <- LStart
 Bad <- LBad
 After <- LAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
