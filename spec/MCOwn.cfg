SPECIFICATION MCSpec
CONSTANTS
  Slots = {1, 2}
  Kinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  HeapKinds = {1, 2, 3, 4, 5, 6, 7, 8, 10}
  StackKinds = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15}
  TreeKind = 6
  CfgKind = 10
  Used = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
VIEW View
INVARIANTS TypeOK AllReturned OnlyOwners
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
