CONSTANTS
  BigRows = {}
  MaxRows = 4
  Fns = {"List", "Query", "PageParams", "Builder", "QueryRow", "BuilderRow"}
  Execs = {"db"}
  Faults = {"none", "query", "next", "scan", "end", "panic", "close", "columns", "cancel"}
  Calls = 2
  Random = FALSE
  Record = FALSE
SPECIFICATION Spec
INVARIANTS Complete NoRows Consistent Clean Bounded
PROPERTY Returns
CHECK_DEADLOCK FALSE
