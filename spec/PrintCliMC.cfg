CONSTANTS
  Depth = 2
  Walk = FALSE
  Record = FALSE
  MaxObjs = 5
  MaxCols = 5
SPECIFICATION Spec
INVARIANTS OneDocument FailsRight Complete Closed
CHECK_DEADLOCK FALSE
