SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 3
          MaxTime = 5
          MaxInputs = 3
INVARIANTS TypeOK NoDoubleEvidence TimesFit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
