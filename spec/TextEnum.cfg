CONSTANTS
  Alphabet <- Letters
  Long = 6
  Short = 3
  Record = TRUE
SPECIFICATION Spec
INVARIANTS NumberedOnce OtherText Alone
CHECK_DEADLOCK FALSE
