SPECIFICATION TraceSpec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          StampSize = 6 \* @STAMP_SIZE
          ConceptsMax = 24 \* @CONCEPTS_MAX
          BeliefsMax = 8 \* @CYCLING_BELIEF_EVENTS_MAX
          GoalsMax = 6 \* @CYCLING_GOAL_EVENTS_MAX
          OpsMax = 4 \* @OPERATIONS_MAX
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
