CONSTANTS
  Leaves = {"nil", "norows", "text", "nf", "a"}
  Wraps = {"%w", "%v", "hide", "secondary", "check", "new", "row", "join-left"}
  Depth = 4
  Walk = FALSE
  Tables = {}
  Ids = {}
SPECIFICATION Spec
INVARIANTS NilOK
PROPERTIES Kept HiddenOK CheckOK
CHECK_DEADLOCK FALSE
