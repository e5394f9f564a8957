CONSTANTS
  Steps = {121, 300}
  Modes = {"ok","fail","hang"}
  MaxTx = 1
  Depth = 5
  MaxTime = 5000
  Record = TRUE
  Walk = FALSE
SPECIFICATION Spec
INVARIANTS Bounds
PROPERTIES NothingAfter
CHECK_DEADLOCK FALSE
