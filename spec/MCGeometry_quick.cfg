CONSTANTS Ns = {2, 3, 4}  Ms = {3, 6}  Emit = TRUE  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Descriptions Steps Bijection
CHECK_DEADLOCK FALSE
