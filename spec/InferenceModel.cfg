SPECIFICATION Spec
CONSTANTS H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Names = {"a", "b"}
          Kinds = {"?", ";"}
          Grid <- OneValue
          Nums <- NoNums
INVARIANTS Symmetric Grounded OneGrounded Canonical Related2
CHECK_DEADLOCK FALSE
