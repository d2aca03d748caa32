SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT Grammar
INVARIANT Within
CHECK_DEADLOCK FALSE
