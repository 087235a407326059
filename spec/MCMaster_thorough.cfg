CONSTANTS Deep = 1  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Unbiased
CHECK_DEADLOCK FALSE
