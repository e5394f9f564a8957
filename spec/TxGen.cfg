CONSTANTS
  Parents = {"A","B"}
  MaxTx = 5
  MaxWrites = 30
  Opts = {"none","ro","serializable","default"}
  Faults = {"none","fault","ctx"}
  ReadHows = {"query","row","builder","list","dbquery"}
  ExecHows = {"exec","builder","dbexec"}
  Depth = 18
  Record = TRUE
  Walk = TRUE
SPECIFICATION Spec
INVARIANTS Atomic Confined
CHECK_DEADLOCK FALSE
