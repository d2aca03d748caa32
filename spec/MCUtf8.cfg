SPECIFICATION MCSpec
CONSTANTS MaxLen = 2
  Dense = FALSE
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT DecodeLaw
INVARIANT ScalarsLaw
CHECK_DEADLOCK FALSE
