CONSTANTS
 Names = {"lin", "root", "tanh", "mq"}
 Depth = 1
 Coords = {1, 2, 3, 4}
 Dim = 1
INIT Init
NEXT Next
INVARIANT Symmetric
CHECK_DEADLOCK FALSE
