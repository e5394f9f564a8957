CONSTANTS
  Slots = 1
  Depth = 4
  Ops = {"Select", "From", "New", "Update", "DeleteFrom", "InsertInto", "Where", "Having", "Expr", "Clause", "GroupBy", "OrderBy", "Returning", "Set", "SetExpr", "NewRow", "RowSet", "In", "Join", "Limit", "Offset"}
  Frags = {"plain", "two"}
  Dialects = {"none"}
  Names = {""}
  Random = FALSE
  Record = FALSE
SPECIFICATION SpecI
INVARIANTS Refines Adds SortedI Balanced Ordered
CHECK_DEADLOCK FALSE
