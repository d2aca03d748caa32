SPECIFICATION MCSpec
CONSTANTS Gens = {1, 2}
  MaxDraws = 1500
  Counts = {227, 398, 624}
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
