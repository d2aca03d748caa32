SPECIFICATION MCSpec
CONSTANTS K = 3
  H = 24
  Slack = 32
VIEW View
ACTION_CONSTRAINT Emit
INVARIANT Safe
CHECK_DEADLOCK FALSE
