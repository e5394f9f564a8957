CONSTANTS
  Queries = {"A"}
  Positions = {0,63,64}
  EnumPositions = {0,5,64}
  EnumValues = {0,1}
  FlagSets <- FlagsSmall
  NullSets <- NullsSmall
  Limits = {0,3}
  Offsets = {0,7}
  MaxArgs = 9
  Depth = 3
  Record = TRUE
  Walk = FALSE
SPECIFICATION Spec
INVARIANTS MemoFresh PageLast InOrder OnePage
CHECK_DEADLOCK FALSE
