CONSTANTS
 Names = {"lin", "square", "sqexp", "exp", "rq"}
 Depth = 2
 Coords = {1, 2, 4}
 Dim = 2
INIT Init
NEXT Next
INVARIANT Symmetric
INVARIANT InnerProduct
INVARIANT Minors
CHECK_DEADLOCK FALSE
