SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          MinConf = 1000000
          StampSize = 6 \* @STAMP_SIZE
          MaxTime = 5
          MaxInputs = 3
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
