CONSTANTS
  Slots = {1,2,3}
  Depth = 12
  Walk = TRUE
  Record = TRUE
  Classes = {"plain","space","plus","percent","at","colon","slash","quest","hash","amp","eq","unicode","quote","backslash"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
