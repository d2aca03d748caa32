SPECIFICATION MCSpec
CONSTANTS Keys <- KeySetDef
          Vals <- ValSetDef
          MaxLen = 4
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT DistinctKeys OnlyIfExists
PROPERTY Order
CHECK_DEADLOCK FALSE
