CONSTANTS
  Kinds = {"offset", "cursor"}
  Styles = {"params", "args", "plain", "nopage", "bare", "none", "query", "queryparams"}
  Totals = {0,1,499,500,501,999,1000,1001}
  Limits = {0,499,500,501,1000}
  Starts = {0,1,500}
  Keys = {"small"}
  Highs = {FALSE}
  MaxFails = 0
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Once NextIsEnd

CHECK_DEADLOCK FALSE
