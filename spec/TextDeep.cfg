CONSTANTS
  Alphabet <- Letters
  Long = 8
  Short = 4
  Record = TRUE
SPECIFICATION Spec
INVARIANTS NumberedOnce OtherText Alone
CHECK_DEADLOCK FALSE
