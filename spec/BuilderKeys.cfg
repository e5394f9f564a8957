CONSTANTS
  Slots = 1
  Depth = 4
  Ops = {"Select", "New", "Clause", "Where", "Expr", "Lines", "Limit"}
  Frags = {"x", "cx", "xx", "xq", "xe"}
  Dialects = {"postgres"}
  Names = {""}
  Random = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Ordered Transparent
CHECK_DEADLOCK FALSE
