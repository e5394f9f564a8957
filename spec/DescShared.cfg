CONSTANTS
  Depth = 24
  Walk = TRUE
  Record = TRUE
  Changes = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
