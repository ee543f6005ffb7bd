CONSTANTS
 Start <- CGStart
 Bad <- CGBad
 After <- CGAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
