CONSTANTS
  Slots = 4
  Depth = 22
  Ops = {"Default", "Select", "From", "New", "Update", "DeleteFrom", "InsertInto", "Where", "Having", "Expr", "Clause", "GroupBy", "OrderBy", "OrderBy2", "Returning", "Set", "SetExpr", "NewRow", "RowSet", "RowSetExpr", "In", "Join", "Limit", "Offset", "Paginate", "To", "Bind", "Lines", "SubQuery", "Bare", "Union", "UnionAll", "With", "Clone", "String"}
  Frags = {"plain", "one", "two", "adj", "esc", "esc1", "back", "multi", "space"}
  Dialects = {"none", "postgres", "sqlserver"}
  Names = {""}
  Random = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Ordered Transparent
CHECK_DEADLOCK FALSE
