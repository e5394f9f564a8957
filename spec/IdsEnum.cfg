CONSTANTS
  NN = 7
  Slots = {1,2}
  Lists = {1,2}
  MaxLen = 3
  Depth = 3
  Walk = FALSE
  Wide = FALSE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
