CONSTANTS
  Parents = {"A"}
  MaxTx = 2
  MaxWrites = 9
  Opts = {"none"}
  Faults = {"none","fault"}
  ReadHows = {"query"}
  ExecHows = {"exec"}
  Depth = 4
  Record = TRUE
  Walk = FALSE
SPECIFICATION Spec
INVARIANTS Atomic Confined
CHECK_DEADLOCK FALSE
