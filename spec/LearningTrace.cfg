SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          LeastConf = 1000000
          Distance = 20
          Longest = 3
          Recent = 20
          StampSize = 6 \* @STAMP_SIZE
          Nums <- NoNums
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
