CONSTANTS
  Slots = {1}
  Depth = 3
  Walk = FALSE
  Record = FALSE
  Classes = {"plain","space","plus","percent","at","colon","slash","quest","hash","amp","eq","unicode","quote","backslash"}
SPECIFICATION Spec
INVARIANTS AsAsked Kept NothingLeft
CHECK_DEADLOCK FALSE
