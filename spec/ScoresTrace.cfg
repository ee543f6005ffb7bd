CONSTANTS
 Start <- SCStart
 Bad <- SCBad
 After <- SCAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
