CONSTANTS LMaxs = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15}
SPECIFICATION Spec
INVARIANTS Filled Grounded Extremes Valid
