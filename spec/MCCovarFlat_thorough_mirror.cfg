CONSTANTS NX = 5 NY = 3 Deep = 1 Mirror = 1
SPECIFICATION Spec
INVARIANTS Exact Transposed Positive
CHECK_DEADLOCK FALSE
