SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          MinConf = 1000000
          Durability = 99990000
          Fading = 90000000
          Recent = 20
          StampSize = 6 \* @STAMP_SIZE
          Layers = 4 \* @CYCLING_GOAL_EVENTS_LAYERS
          BeliefCap = 8 \* @CYCLING_BELIEF_EVENTS_MAX
          GoalCap = 6 \* @CYCLING_GOAL_EVENTS_MAX
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
