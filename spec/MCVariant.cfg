SPECIFICATION MCSpec
CONSTANTS NVars = 2
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT ValueOnlyIfThere
PROPERTY Isolation
CHECK_DEADLOCK FALSE
