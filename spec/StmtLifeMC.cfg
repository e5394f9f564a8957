CONSTANTS
  Slots = {1,2}
  Buffers = 3
  Depth = 5
  MaxRows = 1
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Exclusive Conserved
PROPERTIES Stable
CHECK_DEADLOCK FALSE
