CONSTANTS
 Kind = "sgd"
 N = 3
 Iters = 2
 Samples = {0, 1, 2, 4}
 ZeroStart = FALSE
SPECIFICATION Spec
INVARIANTS Lookahead Plain OncePerEpoch Balanced Budget EarlyOnlyIfSettled
PROPERTIES Ends
