SPECIFICATION Spec
INVARIANTS Ahead Pays
PROPERTIES Affected
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Anticipated = 50100000
          FailureConf = 1000000
          WeakConf = 5000000
          Nums <- NoNums
          StampSize = 6
CHECK_DEADLOCK FALSE
