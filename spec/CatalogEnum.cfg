CONSTANTS
  Pool = {1,2,3}
  ViewPool = {1,2}
  FkKinds = {"a"}
  ColTemplates = {1,2,3,4,5}
  IdxTemplates = {1,2,3,4,5,6}
  Filters <- FewFilters
  Faults = {}
  Depth = 2
  Walk = FALSE
  Dialects = {"postgres"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
