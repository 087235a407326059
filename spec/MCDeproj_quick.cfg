CONSTANTS Deep = 0  Mutant = "none"
SPECIFICATION Spec
INVARIANTS Signal Noise
CHECK_DEADLOCK FALSE
