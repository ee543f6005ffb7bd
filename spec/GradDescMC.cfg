CONSTANTS
 Kind = "sgd"
 N = 2
 Iters = 3
 Samples = {0, 1, 3}
 ZeroStart = FALSE
SPECIFICATION Spec
INVARIANTS Lookahead Plain OncePerEpoch Balanced Budget EarlyOnlyIfSettled
PROPERTIES Ends
