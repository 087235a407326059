CONSTANTS Ns = {2, 3, 4, 5, 6}  Ms = {3, 4, 5, 6, 8, 9}  Emit = TRUE  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Descriptions Steps Bijection
CHECK_DEADLOCK FALSE
