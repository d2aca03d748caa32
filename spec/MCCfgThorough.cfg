SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
CoreLen = 6
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
