SPECIFICATION MCSpec
CONSTANTS MaxLen = 3
  Dense = TRUE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT DecodeLaw
INVARIANT ScalarsLaw
CHECK_DEADLOCK FALSE
