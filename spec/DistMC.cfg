CONSTANT N = 12
SPECIFICATION Spec
INVARIANTS Density Log Law Estimate SameLaw
PROPERTY SamePath
