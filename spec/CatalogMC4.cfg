CONSTANTS
  Pool = {1,2,3,4}
  ViewPool = {}
  FkKinds = {"a"}
  ColTemplates = {1}
  IdxTemplates = {1}
  Filters <- FewFilters
  Faults = {}
  Depth = 0
  Walk = FALSE
  Dialects = {"postgres"}
SPECIFICATION Spec
INVARIANTS ClosureOK
CHECK_DEADLOCK FALSE
