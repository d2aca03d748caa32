SPECIFICATION MCSpec
CONSTANTS MaxLabels = 2
  MaxLen = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT Shown
CHECK_DEADLOCK FALSE
