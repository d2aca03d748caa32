SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY Extends
CHECK_DEADLOCK FALSE
