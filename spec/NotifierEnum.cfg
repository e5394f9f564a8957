CONSTANTS
  IdleAt = {}
  Topics = {"a","b"}
  Payloads = {"obj"}
  Bursts = {3}
  Depth = 4
  Walk = FALSE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
