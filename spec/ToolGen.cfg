CONSTANTS
  Depth = 4
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS CodeRight OutRight LoginRight
CHECK_DEADLOCK FALSE
