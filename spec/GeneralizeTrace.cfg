SPECIFICATION Spec
CONSTANT Nums <- NoNums
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
