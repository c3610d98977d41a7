SPECIFICATION Spec
CONSTANTS Cap = 2
          Ranks = {0, 1, 2}
          TermSet = {{"a"}, {"b"}, {"a", "b"}, {"b", "c"}}
INVARIANTS Unique LookupAgrees IndexAgrees Bounded FreshIds
PROPERTIES NeverReturns OnlyLowestGoes
CHECK_DEADLOCK FALSE
