SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
  Editable = {1, 2}
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT Laws
CHECK_DEADLOCK FALSE
