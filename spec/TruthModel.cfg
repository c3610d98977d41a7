SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Fs = {0, 1, 10000000, 25000000, 50000000, 50000001, 75000000, 99000000, 100000000}
          Cs = {0, 1000000, 10000000, 30000000, 50000000, 90000000, 99000000}
          Steps = {0, 1, 2, 20, 500}
INVARIANTS Laws Revising Timing Symmetric
CHECK_DEADLOCK FALSE
