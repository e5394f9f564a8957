CONSTANTS
  Leaves = {"nil", "norows", "text", "text2", "near", "near2", "nf", "a", "canceled", "txdone", "eof", "row-none", "row-a"}
  Wraps = {"%w", "wrap", "message", "stack", "detail", "%w%w-left", "%w%w-right", "join-left", "join-right", "join2-right", "mark", "%v", "handled", "hide", "hide-multi", "secondary", "check", "new", "row", "list", "scan"}
  Depth = 9
  Walk = TRUE
  Tables = {"t1", "T1", "", "a.b"}
  Ids = {"", "0", "1", "18446744073709551615", "x y"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
