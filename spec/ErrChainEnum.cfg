CONSTANTS
  Leaves = {"nil", "norows", "text", "text2", "near", "near2", "nf", "a", "canceled", "txdone", "eof", "row-none", "row-a"}
  Wraps = {"%w", "wrap", "message", "stack", "detail", "%w%w-left", "%w%w-right", "join-left", "join-right", "join2-right", "mark", "%v", "handled", "hide", "hide-multi", "secondary", "check", "new", "row", "list", "scan"}
  Depth = 2
  Walk = FALSE
  Tables = {}
  Ids = {}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
