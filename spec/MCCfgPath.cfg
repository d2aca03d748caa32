SPECIFICATION MCSpec
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
INVARIANT PathLaws
CHECK_DEADLOCK FALSE
