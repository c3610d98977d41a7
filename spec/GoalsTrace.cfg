SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Condition = 50100000
          Nums <- NoNums
          StampSize = 6 \* @STAMP_SIZE
          Layers = 4 \* @CYCLING_GOAL_EVENTS_LAYERS
          Property = "C14" \* @PROPERTY
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
