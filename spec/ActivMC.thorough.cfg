CONSTANT N = 120
SPECIFICATION Spec
INVARIANTS Derivative FromOutput Inverse Range
PROPERTY Increasing
