CONSTANTS
  Pool = {1,2}
  ViewPool = {}
  FkKinds = {"id"}
  ColTemplates = {7}
  IdxTemplates = {7}
  Filters <- FewFilters
  Faults <- NoFaults
  Depth = 6
  Walk = TRUE
  Dialects = {"postgres","sqlserver"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
