CONSTANTS
  K = 3
  NGen = 2
  Machines = {1, 2}
  Bursts = {1}
  Fwd = {1, 2}
  Back = {}
  Scenarios = {"zero", "limit"}
  LimitT = 7
  Depth = 100
  Record = FALSE
SPECIFICATION Spec
INVARIANTS SeqRange NoFuture

CONSTRAINT Bound
CHECK_DEADLOCK FALSE
