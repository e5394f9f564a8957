CONSTANTS
  Steps = {1, 118, 120, 121, 239, 241, 360, 1000}
  Modes = {"ok","fail","hang","down"}
  MaxTx = 3
  Depth = 16
  MaxTime = 20000
  Record = TRUE
  Walk = TRUE
SPECIFICATION Spec
INVARIANTS Bounds
CHECK_DEADLOCK FALSE
