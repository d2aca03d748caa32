SPECIFICATION MCSpec
CONSTANTS Vals = {1, 2}
          MaxLen = 5
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT UniqueHandles OnlyIfExists
CHECK_DEADLOCK FALSE
