CONSTANTS LMaxs = {2, 3, 4, 6, 9}
SPECIFICATION Spec
INVARIANTS Filled Grounded Extremes Valid
