SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 6 \* @STAMP_SIZE
          RingSize = 16 \* @OCCURRENCE_TIME_INDEX_SIZE
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
