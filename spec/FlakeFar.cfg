\* Few walks with jumps of an hour and more: an implementation that waits in
\* small steps takes long for them.
CONSTANTS
  K = 64
  NGen = 1
  Machines = {1, 43981}
  Bursts = {1, 65, 130}
  Fwd = {3600001}
  Back = {4000000}
  Scenarios = {"today"}
  LimitT = 12
  Depth = 9
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
