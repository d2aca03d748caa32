SPECIFICATION MCSpec
CONSTANT K = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Safe
CHECK_DEADLOCK FALSE
