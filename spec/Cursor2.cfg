CONSTANTS
  Keys = {"after", "id"}
  Vals = {"small", "zero", "neg", "p53", "p53a", "p53b", "n53", "max", "min", "umax", "float", "tiny", "text", "odd", "empty", "true", "false"}
  Damages = {"none", "cut"}
  MaxKeys = 2
SPECIFICATION Spec
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
