CONSTANTS
  Versions = {0,10}
  Foreign = {7}
  Calls = 2
  MaxFault = 40
  Walk = FALSE
  Record = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Success Failure NoFault AnyFault Unlocked
