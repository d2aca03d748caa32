SPECIFICATION MCSpec
CONSTANTS N = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT NoRepeats
PROPERTY Order OneNode
CHECK_DEADLOCK FALSE
