SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Anticipated = 50100000
          FailureConf = 1000000
          WeakConf = 5000000
          Recent = 20
          Nums <- NoNums
          StampSize = 6 \* @STAMP_SIZE
          Capacity = 4 \* @TABLE_SIZE
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
