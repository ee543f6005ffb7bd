CONSTANTS
 Start <- GDStart
 Bad <- GDBad
 After <- GDAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
