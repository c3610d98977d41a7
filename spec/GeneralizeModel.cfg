SPECIFICATION Spec
INVARIANTS Sound Complete
CONSTANT Nums <- NoNums
CHECK_DEADLOCK FALSE
