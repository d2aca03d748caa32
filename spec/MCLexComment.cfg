SPECIFICATION MCSpec
CONSTANTS MaxLen = 5
  Kind = "comment"
  Alphabet <- A1
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT Bounded
INVARIANT LineLaw
INVARIANT BlockLaw
INVARIANT BlankLaw
INVARIANT NewlineLaw
INVARIANT EscapeLaw
CHECK_DEADLOCK FALSE
