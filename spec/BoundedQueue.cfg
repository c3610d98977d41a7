SPECIFICATION Spec
CONSTANTS Cap = 3
          MaxPrio = 3
INVARIANT Bounded
PROPERTIES KeepsBest PushNeverWorsens
CHECK_DEADLOCK FALSE
