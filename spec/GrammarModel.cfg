SPECIFICATION Spec
CONSTANTS Names = {"a", "$1", "#1"}
          Rounds = 2
CHECK_DEADLOCK FALSE
INVARIANTS BackAndForth EveryWay NamesDoNotMatter Kept
