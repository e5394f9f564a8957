CONSTANTS
  Depth = 2
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT TypeOK
