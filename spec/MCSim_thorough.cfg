CONSTANTS NY = 5 NX = 4 Workers = 3
SPECIFICATION Spec
INVARIANTS Schedule Hermitian Sized Correlated Pairs
CHECK_DEADLOCK FALSE
