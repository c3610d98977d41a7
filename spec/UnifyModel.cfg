SPECIFICATION Spec
INVARIANTS Complete Sound QueryOnly
CONSTANT Nums <- NoNums
CHECK_DEADLOCK FALSE
