SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 4
          Cap = 2
          Cells = {1, 2}
          Names = {"a", "b", "c"}
          Freqs = {0, 100000000}
          Confs = {60000000, 70000000}
          MaxId = 3
CONSTRAINT Small
INVARIANTS TableOk UseOk
PROPERTIES AddedOk
CHECK_DEADLOCK FALSE
