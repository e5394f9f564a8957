CONSTANTS
  BigRows = {500, 501, 1100}
  MaxRows = 0
  Fns = {"List", "Query", "PageParams", "PageArgs", "Cursor", "CursorArgs", "Builder", "BuilderAndClose", "QueryRow", "BuilderRow", "BuilderRowAndClose"}
  Execs = {"db"}
  Faults = {"none", "next", "scan", "end", "panic"}
  Calls = 1
  Random = FALSE
  Record = TRUE
SPECIFICATION Spec
INVARIANTS Complete NoRows Consistent Clean Bounded
CHECK_DEADLOCK FALSE
