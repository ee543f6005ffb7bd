CONSTANTS
 Kind = "standard"
 V = {0, 1, 2, 3, 5}
 N = 4
 Check = FALSE
SPECIFICATION Spec
INVARIANTS NeverUndefined Ends Moments Order BackAgain RefusedOnly
