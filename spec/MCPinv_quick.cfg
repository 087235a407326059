CONSTANTS Dim = 2
SPECIFICATION Spec
INVARIANTS Counted Unique Twice
CHECK_DEADLOCK FALSE
