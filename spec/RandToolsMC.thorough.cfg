CONSTANT N = 6
SPECIFICATION Spec
INVARIANTS Membership Uniform
PROPERTY Settled
