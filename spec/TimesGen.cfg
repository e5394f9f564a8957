CONSTANTS
  Depth = 8
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Sane Calendar TextOfEach SameInstant
CHECK_DEADLOCK FALSE
