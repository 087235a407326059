CONSTANTS Dim = 3
SPECIFICATION Spec
INVARIANTS Counted Unique Twice
CHECK_DEADLOCK FALSE
