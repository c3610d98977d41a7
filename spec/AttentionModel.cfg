SPECIFICATION Spec
CONSTANTS StampSize = 3
          H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          MinConf = 1000000
          Durability = 99990000
          Fading = 90000000
          Layers = 2
          Cap = 2
          Cycles = 3
INVARIANTS Bounded Unique Sorted NoImplications Once
PROPERTIES InOrder OnlyFade Progress
CHECK_DEADLOCK FALSE
