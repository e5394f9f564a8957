CONSTANTS
  Nets = {"v4a", "v4b", "v6"}
  Hosts <- Pairs
  MaxAddrs = 4
  MaxGens = 4
  MaxLen = 12
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Bits Settled
CHECK_DEADLOCK FALSE
