SPECIFICATION MCSpec
CONSTANTS Small = 1100
  MaxBits = 63
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT TableLaw
CHECK_DEADLOCK FALSE
