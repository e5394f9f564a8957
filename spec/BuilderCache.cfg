CONSTANTS
  Slots = 3
  Depth = 26
  Ops = {"Select", "From", "New", "Where", "Expr", "Clause", "Limit", "In", "SubQuery", "Union", "String", "Close", "Exec", "SetName", "GetOrCreate", "Peek", "Put", "Invalidate", "Lines"}
  Frags = {"plain", "two", "esc1"}
  Dialects = {"none", "postgres", "sqlserver"}
  Names = {"", "q1", "Q1", "q1 "}
  Random = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Balanced Ordered Transparent
CHECK_DEADLOCK FALSE
