CONSTANTS NX = 5 NY = 3 MaxHoles = 4
SPECIFICATION Spec
INVARIANTS Bounded Least Transposed Turned MeanKept Uniform Lower
CHECK_DEADLOCK FALSE
