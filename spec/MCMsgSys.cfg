SPECIFICATION MCSpec
CONSTANTS Streams = {1, 2}
  Counters = {1, 2}
  MaxCount = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
