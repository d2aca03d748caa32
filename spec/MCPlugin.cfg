SPECIFICATION MCSpec
CONSTANTS
  Handles = {1, 2}
  Paths = {1}
  Versions = {1, 2}
  Times = {1, 2}
VIEW View
INVARIANTS TypeOK Balanced Noticed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
