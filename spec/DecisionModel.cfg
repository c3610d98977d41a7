SPECIFICATION Spec
INVARIANTS Reason Refuted Harm Acts
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Condition = 50100000
          Threshold = 50100000
          Suppression = 55000000
          GoalAge = 20
          EventAge = 20
          RefutedC = 5000000
          RefutedF = 50000000
          Nums <- NoNums
          StampSize = 6
CHECK_DEADLOCK FALSE
