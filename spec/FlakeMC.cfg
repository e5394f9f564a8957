CONSTANTS
  K = 3
  NGen = 2
  Machines = {1, 2}
  Bursts = {1}
  Fwd = {1, 2}
  Back = {1, 3}
  Scenarios = {"zero", "limit"}
  LimitT = 7
  Depth = 100
  Record = FALSE
SPECIFICATION Spec
INVARIANTS SeqRange CallsAgree
PROPERTIES Monotone Progress NotEarlier
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
