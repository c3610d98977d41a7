SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Nums <- NoNums
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
