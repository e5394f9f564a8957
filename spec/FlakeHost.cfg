CONSTANTS
  Nets = {"v4a", "v6"}
  Hosts <- Pairs
  MaxAddrs = 2
  MaxGens = 2
  MaxLen = 3
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Bits Settled
PROPERTY Keeps
CHECK_DEADLOCK FALSE
