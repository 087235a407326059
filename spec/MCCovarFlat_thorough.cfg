CONSTANTS NX = 5 NY = 3 Deep = 1 Mirror = 0
SPECIFICATION Spec
INVARIANTS Exact Transposed Positive
CHECK_DEADLOCK FALSE
