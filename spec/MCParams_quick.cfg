CONSTANTS NO = 1 Depth = 4 Mutant = "none"
SPECIFICATION Spec
VIEW Full
INVARIANTS Reported Fixed Valid
CHECK_DEADLOCK FALSE
