SPECIFICATION Spec
INVARIANTS InOrder First
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Condition = 50100000
          Nums <- NoNums
          StampSize = 10
          MaxT = 2
CHECK_DEADLOCK FALSE
