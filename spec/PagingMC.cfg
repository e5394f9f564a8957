CONSTANTS
  Kinds = {"offset", "cursor"}
  Styles = {"params", "args", "plain", "nopage", "bare", "none", "query", "queryparams"}
  Totals = {0,1,2,3,4,5,6,7,8,9,10,11,12}
  Limits = {0,1,2,3,4,5,6,7,12,13}
  Starts = {0,1,2,3,5,11,12,13,14}
  Keys = {"small"}
  Highs = {FALSE}
  MaxFails = 2
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Once NextIsEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
