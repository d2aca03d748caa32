SPECIFICATION MCSpec
CONSTANTS NSlots = 2
          Vals <- V2
          MaxNodes = 4
CONSTRAINT Bound
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY Growth
CHECK_DEADLOCK FALSE
