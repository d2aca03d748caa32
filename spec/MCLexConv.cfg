SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT DecLaw
CHECK_DEADLOCK FALSE
