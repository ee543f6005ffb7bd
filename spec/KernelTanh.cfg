CONSTANTS
 Names = {"lin", "tanh"}
 Depth = 1
 Coords = {1, 2, 3, 4}
 Dim = 1
INIT Init
NEXT Next
INVARIANT Symmetric
INVARIANT InnerProduct
INVARIANT Minors
CHECK_DEADLOCK FALSE
