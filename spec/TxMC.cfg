CONSTANTS
  Parents = {"A"}
  MaxTx = 3
  MaxWrites = 3
  Opts = {"none"}
  Faults = {"none","fault"}
  ReadHows = {"query"}
  ExecHows = {"exec"}
  Depth = 0
  Record = FALSE
  Walk = FALSE
SPECIFICATION Spec
INVARIANTS Atomic Confined
PROPERTIES Monotone ByCommit
CHECK_DEADLOCK FALSE
