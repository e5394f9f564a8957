CONSTANTS
  IdleAt = {9}
  Topics = {"a","b","c","d"}
  Payloads = {"same", "obj","text"}
  Bursts = {1,2,7,40}
  Depth = 18
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
