CONSTANTS
  Kinds = {"cursor"}
  Styles = {"params", "args", "argsu", "named", "nopage", "plain", "bare", "none", "query", "queryparams"}
  Totals = {0,1,2,3,5,6,8}
  Limits = {1,2,3,4,8,9}
  Starts = {0,1,3,8}
  Keys = {"small", "big", "neg", "text", "pair", "list"}
  Highs = {FALSE}
  MaxFails = 1
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Once NextIsEnd

CHECK_DEADLOCK FALSE
