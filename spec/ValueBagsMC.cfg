CONSTANTS
  Maps = {1,2}
  Kvs = {}
  Lists = {1,2}
  Keys = {"k"}
  Vals = {0,1}
  MaxLen = 2
  Depth = 4
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Laws
PROPERTIES Local
CHECK_DEADLOCK FALSE
