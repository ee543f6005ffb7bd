CONSTANTS
 Start <- TFStart
 Bad <- TFBad
 After <- TFAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
