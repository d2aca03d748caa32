SPECIFICATION MCSpec
CONSTANTS
  MaxEntries = 3
  MaxDepth = 3
VIEW View
INVARIANTS TreeOK Consistent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
