SPECIFICATION Spec
CONSTANTS StampSize = 3
          H = 100000000
          Decay = 80000000
          MaxConf = 99000000
          Reliance = 90000000
          Depth0 = 5
INVARIANTS Distinct LastName LastArg LastMotor Listing
CHECK_DEADLOCK FALSE
