CONSTANTS
  Pool = {1,2,3,4,5,6,7,8,9}
  ViewPool = {1,2,3,4,5,6}
  FkKinds = {"a","b","id","ab","ba"}
  ColTemplates = {1,2,3,4,5,6}
  IdxTemplates = {1,2,3,4,5,6}
  Filters <- SomeFilters
  Faults <- SomeFaults
  Depth = 12
  Walk = TRUE
  Dialects = {"postgres","sqlserver","mssql"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
