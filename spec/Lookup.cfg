SPECIFICATION Spec
CONSTANTS Keys = {1, 2, 3}
          Values = {1, 2}
          N = 3
INVARIANTS Partition Bounded
PROPERTIES OnlyThatKey
CHECK_DEADLOCK FALSE
