SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 4
          Cap = 0
          Cells = {}
          Names = {}
          Freqs = {}
          Confs = {}
          MaxId = 0
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
