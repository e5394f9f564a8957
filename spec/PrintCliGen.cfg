CONSTANTS
  Depth = 3
  Walk = TRUE
  Record = TRUE
  MaxObjs = 5
  MaxCols = 5
SPECIFICATION Spec
INVARIANTS OneDocument FailsRight Complete Closed
CHECK_DEADLOCK FALSE
