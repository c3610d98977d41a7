SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 6 \* @STAMP_SIZE
          Capacity = 4 \* @TABLE_SIZE
          Property = "C05" \* @PROPERTY
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
