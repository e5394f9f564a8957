CONSTANTS
  BigRows = {}
  MaxRows = 6
  Fns = {"List", "Query", "PageParams", "PageArgs", "Cursor", "CursorArgs", "Builder", "BuilderAndClose", "QueryRow", "BuilderRow", "BuilderRowAndClose"}
  Execs = {"db", "conn", "tx", "prov", "provtx"}
  Faults = {"none", "query", "next", "scan", "end", "panic", "close", "columns", "cancel"}
  Calls = 8
  Random = TRUE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Complete NoRows Consistent Clean Bounded
CHECK_DEADLOCK FALSE
