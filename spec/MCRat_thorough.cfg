SPECIFICATION Spec
CONSTANT N = 9
INVARIANT Ring
INVARIANT Order
INVARIANT Vector
INVARIANT Complex
INVARIANT Root
INVARIANT Turn
CHECK_DEADLOCK FALSE
