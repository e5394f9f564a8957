CONSTANTS
  Depth = 24
  Walk = TRUE
  Record = TRUE
  Changes = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
