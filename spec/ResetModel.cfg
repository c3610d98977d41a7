SPECIFICATION Spec
CONSTANTS Steps = 6
          Missed = {}
INVARIANT Alike
CHECK_DEADLOCK FALSE
