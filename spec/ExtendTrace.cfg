CONSTANTS
 Start <- XStart
 Bad <- XBad
 After <- XAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
