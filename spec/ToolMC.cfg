CONSTANTS
  Depth = 2
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS CodeRight OutRight LoginRight
CHECK_DEADLOCK FALSE
