CONSTANT N = 5
SPECIFICATION Spec
INVARIANTS Membership Uniform
PROPERTY Settled
