SPECIFICATION Spec
CONSTANTS Texts <- ThreeTexts
          Rounds = 1
CHECK_DEADLOCK FALSE
INVARIANTS AllAllowed Exclusive Settled InOrder
PROPERTY Stops
