CONSTANTS
  Slots = {1}
  Buffers = 99
  Depth = 2
  MaxRows = 2
  Walk = FALSE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
