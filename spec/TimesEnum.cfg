CONSTANTS
  Depth = 2
  Walk = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Sane Calendar TextOfEach SameInstant
CHECK_DEADLOCK FALSE
