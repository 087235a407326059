CONSTANT Deep = 0
SPECIFICATION Spec
INVARIANTS MeanSpectrum NoLeakage RoundTrip Rotation
CHECK_DEADLOCK FALSE
