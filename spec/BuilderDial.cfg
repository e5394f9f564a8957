CONSTANTS
  Slots = 5
  Depth = 20
  Ops = {"Default", "Select", "From", "New", "Update", "InsertInto", "Where", "Expr", "Clause", "SetExpr", "In", "Limit", "SubQuery", "Bare", "Union", "UnionAll", "With", "String", "Lines"}
  Frags = {"plain", "one", "adj", "esc", "esc1", "back", "multi", "space"}
  Dialects = {"none", "postgres", "postgres", "sqlserver"}
  Names = {"", "q1"}
  Random = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Ordered Transparent
CHECK_DEADLOCK FALSE
