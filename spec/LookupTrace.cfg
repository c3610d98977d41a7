SPECIFICATION TraceSpec
CONSTANTS Keys = {}
          Values = {}
          N = 0
CHECK_DEADLOCK FALSE
POSTCONDITION TraceAccepted
