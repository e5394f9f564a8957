CONSTANTS
  Depth = 3
  Walk = TRUE
  Record = TRUE
  MaxTables = 5
  MaxCols = 9
SPECIFICATION Spec
INVARIANTS Once Fields Pure
CHECK_DEADLOCK FALSE
