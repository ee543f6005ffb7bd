CONSTANT N = 64
SPECIFICATION Spec
INVARIANTS Density Log Law Estimate SameLaw
PROPERTY SamePath
