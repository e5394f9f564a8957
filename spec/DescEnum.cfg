CONSTANTS
  Depth = 3
  Walk = FALSE
  Record = TRUE
  Changes = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
