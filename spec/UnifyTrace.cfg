SPECIFICATION Spec
POSTCONDITION TraceAccepted
CONSTANT Nums <- TheNums
CHECK_DEADLOCK FALSE
