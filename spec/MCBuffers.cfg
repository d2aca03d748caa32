SPECIFICATION MCSpec
CONSTANTS MaxCap = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY RemovedLaw
CHECK_DEADLOCK FALSE
