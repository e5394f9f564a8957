CONSTANTS
  Queries = {"A", "A_x1", "B", "list"}
  Positions = {0,1,2,31,32,33,62,63,64,65,127}
  EnumPositions = {0,1,5,11,34,61,63,64,128}
  EnumValues <- EnumsBig
  FlagSets <- FlagsBig
  NullSets <- NullsBig
  Limits = {0,1,3,500,501}
  Offsets = {0,1,7,500,2147483647}
  MaxArgs = 99
  Depth = 14
  Record = TRUE
  Walk = TRUE
SPECIFICATION Spec
INVARIANTS MemoFresh PageLast InOrder OnePage
CHECK_DEADLOCK FALSE
