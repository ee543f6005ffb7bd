CONSTANTS
 Start <- NBStart
 Bad <- NBBad
 After <- NBAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
