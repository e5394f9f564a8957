CONSTANTS
  Slots = 2
  Depth = 5
  Ops = {"Select", "New", "Where", "Expr", "Limit", "Clause", "SubQuery", "Bare", "With", "Union"}
  Frags = {"one"}
  Dialects = {"none"}
  Names = {""}
  Random = FALSE
  Record = FALSE
SPECIFICATION SpecI
INVARIANTS Refines Adds SortedI Balanced Ordered
CHECK_DEADLOCK FALSE
