SPECIFICATION MCSpec
CONSTANTS MaxLen = 4
  Kind = "str"
  Alphabet <- A5
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT Bounded
INVARIANT LineLaw
INVARIANT BlockLaw
INVARIANT BlankLaw
INVARIANT NewlineLaw
INVARIANT EscapeLaw
CHECK_DEADLOCK FALSE
