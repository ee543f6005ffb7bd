CONSTANTS
 Names = {"iris", "trees"}
 Handles = {1, 2}
 Cells = {1, 31}
 Aliased = TRUE
SPECIFICATION Spec
INVARIANT Published
INVARIANT Positive
INVARIANT Constant
CHECK_DEADLOCK FALSE
