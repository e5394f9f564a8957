CONSTANTS
  Depth = 2
  Walk = FALSE
  Record = TRUE
  MaxTables = 1
  MaxCols = 1
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
