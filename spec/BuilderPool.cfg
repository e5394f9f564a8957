CONSTANTS
  Slots = 4
  Depth = 26
  Ops = {"Select", "From", "New", "Update", "DeleteFrom", "InsertInto", "Where", "Having", "Expr", "Clause", "OrderBy", "Returning", "Set", "SetExpr", "NewRow", "RowSet", "RowSetExpr", "In", "Join", "Limit", "Offset", "To", "Bind", "Lines", "SubQuery", "Union", "With", "String", "Clone", "Close", "Exec", "Query", "QueryRow", "ExecAndClose", "QueryAndClose", "QueryRowAndClose", "SetName"}
  Frags = {"plain", "one", "two", "esc1"}
  Dialects = {"none", "postgres"}
  Names = {"", "q1"}
  Random = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Ordered Transparent
CHECK_DEADLOCK FALSE
