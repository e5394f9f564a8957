CONSTANTS
  NN = 3
  Slots = {1,2}
  Lists = {1,2}
  MaxLen = 3
  Depth = 5
  Walk = FALSE
  Wide = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS NoDup SetLaws
PROPERTIES Local
CHECK_DEADLOCK FALSE
