CONSTANTS
 Start <- CVStart
 Bad <- CVBad
 After <- CVAfter
INIT TraceInit
NEXT TraceNext
ALIAS TraceAlias
