CONSTANTS
  Depth = 1
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Sane Calendar TextOfEach SameInstant
CHECK_DEADLOCK FALSE
