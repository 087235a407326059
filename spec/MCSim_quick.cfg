CONSTANTS NY = 4 NX = 3 Workers = 2
SPECIFICATION Spec
INVARIANTS Schedule Hermitian Sized Correlated Pairs
CHECK_DEADLOCK FALSE
