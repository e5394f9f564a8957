CONSTANTS
  Maps = {1,2,3}
  Kvs = {4,5,6}
  Lists = {1,2,3}
  Keys = {"k","K","","two words"}
  Vals = {0,1,2,3}
  MaxLen = 4
  Depth = 20
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
