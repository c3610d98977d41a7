SPECIFICATION ESpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 3
          MaxInputs = 4
          MaxBeliefs = 3
INVARIANTS Lists Interleaved
PROPERTIES Fresh
CHECK_DEADLOCK FALSE
