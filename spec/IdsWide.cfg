CONSTANTS
  NN = 40
  Slots = {1,2,3,4}
  Lists = {1,2,3}
  MaxLen = 41
  Depth = 12
  Walk = TRUE
  Wide = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
