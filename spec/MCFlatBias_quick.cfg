CONSTANT Deep = 0
SPECIFICATION Spec
INVARIANT Bias
CHECK_DEADLOCK FALSE
