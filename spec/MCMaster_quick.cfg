CONSTANTS Deep = 0  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Unbiased
CHECK_DEADLOCK FALSE
