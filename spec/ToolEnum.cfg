CONSTANTS
  Depth = 1
  Walk = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS CodeRight OutRight LoginRight
CHECK_DEADLOCK FALSE
