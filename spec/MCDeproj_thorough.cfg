CONSTANTS Deep = 1  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Signal Noise
CHECK_DEADLOCK FALSE
