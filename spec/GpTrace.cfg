CONSTANTS
 Start <- GStart
 Bad <- GBad
 After <- GAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
