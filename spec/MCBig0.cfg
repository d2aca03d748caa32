SPECIFICATION MCSpec
CONSTANTS Mod = 0 Base = 0
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Faithful
CHECK_DEADLOCK FALSE
