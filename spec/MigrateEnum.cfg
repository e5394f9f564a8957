CONSTANTS
  Versions = {0,2,10}
  Foreign = {7}
  Calls = 1
  MaxFault = 55
  Walk = FALSE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
