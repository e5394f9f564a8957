CONSTANTS
  NN = 7
  Slots = {1,2,3,4}
  Lists = {1,2,3}
  MaxLen = 6
  Depth = 24
  Walk = TRUE
  Wide = FALSE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
