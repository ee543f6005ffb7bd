CONSTANTS
 Start <- DStart
 Bad <- DBad
 After <- DAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
