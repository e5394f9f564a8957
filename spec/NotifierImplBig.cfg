CONSTANTS
  Topics = {"a","b"}
  Msgs = 3
  CapMain = 1
  CapTopic = 1
  Drops = 1
SPECIFICATION Spec
INVARIANTS InOrder NotAfter
PROPERTIES Arrives Stops Ends
CHECK_DEADLOCK FALSE
