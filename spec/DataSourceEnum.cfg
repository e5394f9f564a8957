CONSTANTS
  Slots = {1}
  Depth = 1
  Walk = FALSE
  Record = TRUE
  Classes = {"plain","space","plus","percent","at","colon","slash","quest","hash","amp","eq","unicode","quote","backslash"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
