CONSTANTS
  Versions = {0,1,2,3,9,10,100}
  Foreign = {7,2147483647}
  Calls = 5
  MaxFault = 80
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
