CONSTANTS
  MaxTicks = 5
  MaxTx = 3
SPECIFICATION Spec
INVARIANTS NoLatePing PingsBound OpenUntilClosed
PROPERTIES Ends Pinged
CHECK_DEADLOCK FALSE
