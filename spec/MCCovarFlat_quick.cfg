CONSTANTS NX = 3 NY = 3 Deep = 0 Mirror = 0
SPECIFICATION Spec
INVARIANTS Exact Transposed Positive
CHECK_DEADLOCK FALSE
