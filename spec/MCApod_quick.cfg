CONSTANTS NX = 4 NY = 3 MaxHoles = 2
SPECIFICATION Spec
INVARIANTS Bounded Least Transposed Turned MeanKept Uniform Lower
CHECK_DEADLOCK FALSE
