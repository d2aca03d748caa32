SPECIFICATION MCSpec
CONSTANTS Mod = 5 Base = 3
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Faithful
CHECK_DEADLOCK FALSE
