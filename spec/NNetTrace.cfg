CONSTANTS
 Start <- NStart
 Bad <- NBad
 After <- NAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
