SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
CoreLen = 5
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
