CONSTANTS
 Kind = "gd"
 N = 2
 Iters = 4
 Samples = {0, 1, 2, 4}
 ZeroStart = TRUE
SPECIFICATION Spec
INVARIANTS Lookahead Plain OncePerEpoch Balanced Budget EarlyOnlyIfSettled
PROPERTIES Ends
