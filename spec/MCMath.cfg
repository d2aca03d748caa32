SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
