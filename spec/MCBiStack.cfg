SPECIFICATION MCSpec
CONSTANT K = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Safe
CHECK_DEADLOCK FALSE
