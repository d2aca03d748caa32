SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
