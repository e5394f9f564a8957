CONSTANTS
  IdleAt = {3}
  Topics = {"a","b"}
  Payloads = {"obj"}
  Bursts = {1,2}
  Depth = 7
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK Told
PROPERTIES Grows Ended Apart
CHECK_DEADLOCK FALSE
