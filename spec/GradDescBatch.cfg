CONSTANTS
 Kind = "gd"
 N = 2
 Iters = 5
 Samples = {0, 1, 2, 4}
 ZeroStart = FALSE
SPECIFICATION Spec
INVARIANTS Lookahead Plain OncePerEpoch Balanced Budget EarlyOnlyIfSettled
PROPERTIES Ends
