CONSTANTS
  Slots = 1
  Depth = 4
  Ops = {"Select", "From", "New", "Update", "DeleteFrom", "InsertInto", "Where", "Having", "Expr", "Clause", "GroupBy", "OrderBy", "Returning", "Set", "SetExpr", "NewRow", "RowSet", "In", "Join", "Limit", "Offset"}
  Frags = {"plain", "two"}
  Dialects = {"postgres"}
  Names = {""}
  Random = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Ordered Transparent
CHECK_DEADLOCK FALSE
