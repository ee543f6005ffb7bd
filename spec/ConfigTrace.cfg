CONSTANTS
 Start <- CStart
 Bad <- CBad
 After <- CAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
