CONSTANTS
  Queries = {"A"}
  Positions = {63,64}
  EnumPositions = {5,64}
  EnumValues = {0,1}
  FlagSets <- FlagsSmall
  NullSets <- NullsSmall
  Limits = {0,3}
  Offsets = {0,7}
  MaxArgs = 3
  Depth = 0
  Record = FALSE
  Walk = FALSE
SPECIFICATION Spec
INVARIANTS MemoFresh PageLast InOrder OnePage
CHECK_DEADLOCK FALSE
