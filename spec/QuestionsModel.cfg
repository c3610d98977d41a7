SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Close = 20
          StampSize = 6
          Nums <- NoNums
          Size = 2
          Clock = 4
INVARIANTS Right Complete
CHECK_DEADLOCK FALSE
