SPECIFICATION GSpec
CONSTANTS Cap = 9
          MaxPrio = 3
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
