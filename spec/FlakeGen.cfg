CONSTANTS
  K = 64
  NGen = 2
  Machines = {0, 1, 255, 256, 32768, 43981, 65535}
  Bursts = {1, 2, 63, 64, 65, 130}
  Fwd = {1, 2, 5, 40, 70000}
  Back = {1, 3, 40, 1500, 20000}
  Scenarios = {"zero", "today", "limit"}
  LimitT = 12
  Depth = 14
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
