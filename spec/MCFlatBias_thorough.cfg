CONSTANT Deep = 1
SPECIFICATION Spec
INVARIANT Bias
CHECK_DEADLOCK FALSE
