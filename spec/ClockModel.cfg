SPECIFICATION Spec
CONSTANTS Lines = 4
          MaxN = 2
INVARIANTS Costs Exact NoFuture Shares
CHECK_DEADLOCK FALSE
