CONSTANTS
  Depth = 3
  Walk = FALSE
  Record = FALSE
  Changes = TRUE
SPECIFICATION Spec
INVARIANTS ColumnsRight ArgsRight
PROPERTIES StmtAlone DescAlone
CHECK_DEADLOCK FALSE
