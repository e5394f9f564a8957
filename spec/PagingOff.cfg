CONSTANTS
  Kinds = {"offset"}
  Styles = {"params", "args", "argsu", "named", "plain", "nopage", "bare", "none", "query", "queryparams"}
  Totals = {0,1,2,3,5,6,8}
  Limits = {0,1,2,3,4,8,9}
  Starts = {0,1,2,3,6,8,10}
  Keys = {"small"}
  Highs = {TRUE, FALSE}
  MaxFails = 1
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Once NextIsEnd

CHECK_DEADLOCK FALSE
