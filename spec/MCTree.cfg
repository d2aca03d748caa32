SPECIFICATION MCSpec
CONSTANTS NSlots = 2
          Vals <- V3
          MaxNodes = 3
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY Growth
CHECK_DEADLOCK FALSE
