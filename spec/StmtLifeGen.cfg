CONSTANTS
  Slots = {1,2,3,4}
  Buffers = 99
  Depth = 24
  MaxRows = 2
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
