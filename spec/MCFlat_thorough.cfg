CONSTANT Deep = 1
SPECIFICATION Spec
INVARIANTS MeanSpectrum NoLeakage RoundTrip Rotation
CHECK_DEADLOCK FALSE
