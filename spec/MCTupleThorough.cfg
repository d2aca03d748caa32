SPECIFICATION MCSpec
CONSTANTS Sizes = {1, 2, 4, 8, 16}
          MaxFields = 4
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT LayoutOK FieldSizes
PROPERTY OneField
CHECK_DEADLOCK FALSE
