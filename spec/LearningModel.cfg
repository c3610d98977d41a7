SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 100000000
          MaxConf = 99000000
          Reliance = 90000000
          LeastConf = 1000000
          Distance = 20
          Longest = 3
          StampSize = 6
          Steps = 4
          Gaps = {0, 1, 9, 19, 20}
          Nums <- NoNums
INVARIANTS Sound Complete NoOperationLearned
CHECK_DEADLOCK FALSE
