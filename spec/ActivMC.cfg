CONSTANT N = 24
SPECIFICATION Spec
INVARIANTS Derivative FromOutput Inverse Range
PROPERTY Increasing
