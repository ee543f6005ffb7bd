CONSTANTS
 Start <- AStart
 Bad <- ABad
 After <- AAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
