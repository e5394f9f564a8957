CONSTANTS
  Models = {1,2,3}
  Fields = {"a","b"}
  Maps = {"g"}
  Keys = {"k"}
  Vals = {0,1,2}
  MapVals = {0}
  Depth = 5
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
