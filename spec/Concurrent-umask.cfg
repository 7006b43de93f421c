CONSTANTS
  N = 2
  Kinds = {"S", "V", "E", "D", "G", "T", "B"}
  Design = "umask"
SPECIFICATION Spec
INVARIANTS NoInterference Beginning
CHECK_DEADLOCK FALSE
