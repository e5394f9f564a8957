CONSTANTS
  Models = {1,2,3}
  Fields = {"id","time","null","str","int","i64","i32","float","bool","uuid","ids","list","deep.id","deep.time","deep.null","deep.str","deep.deep.id","deep.deep.null","deep.deep.int","emb.id","emb.time","emb.bool","u64","id32","gotime"}
  Maps = {"meta","deep.meta","kv"}
  Keys = {"k","k2","k3"}
  Vals = {0,1,2}
  MapVals = {0,1,2}
  Depth = 12
  Walk = TRUE
  Record = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
