SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 6 \* @STAMP_SIZE
          Cap = 24 \* @CONCEPTS_MAX
          CellTotal = 744 \* @CELLS
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
