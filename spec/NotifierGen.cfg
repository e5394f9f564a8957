CONSTANTS
  IdleAt = {}
  Topics = {"a","b","c","d"}
  Payloads = {"same", "obj","nested","text","empty","emptyobj","emptylist","list","number","broken","unicode","null","long", "spaced"}
  Bursts = {1,2,7,40,120}
  Depth = 24
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
