CONSTANTS
 Start <- KStart
 Bad <- KBad
 After <- KAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
