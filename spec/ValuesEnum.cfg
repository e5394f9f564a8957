CONSTANTS
  Depth = 2
  Walk = FALSE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
