CONSTANTS
 Names = {"iris", "trees"}
 Handles = {1, 2}
 Cells = {1, 31}
 Aliased = FALSE
SPECIFICATION Spec
INVARIANT Published
INVARIANT Positive
INVARIANT Constant
INVARIANT Untouched
CHECK_DEADLOCK FALSE
