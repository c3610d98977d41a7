SPECIFICATION TraceSpec
CONSTANTS Cap = 1
          MaxPrio = 1
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
