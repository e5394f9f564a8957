CONSTANTS
  Depth = 3
  Walk = FALSE
  Record = FALSE
  MaxTables = 1
  MaxCols = 1
SPECIFICATION Spec
INVARIANTS Once Fields Pure
CHECK_DEADLOCK FALSE
