SPECIFICATION MCSpec
CONSTANTS Vals = {1, 2}
          MaxLen = 4
          MaxCap = 16
          Second = FALSE
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
