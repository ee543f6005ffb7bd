CONSTANTS
 Start <- RTStart
 Bad <- RTBad
 After <- RTAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
