SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT Rewritten
CHECK_DEADLOCK FALSE
