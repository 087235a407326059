CONSTANTS LMax = 4  Spins = {0, 2}
SPECIFICATION Spec
INVARIANTS Exact Transposed Positive
CHECK_DEADLOCK FALSE
