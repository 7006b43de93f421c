CONSTANTS
  N = 3
  Kinds = {"S", "V", "E", "D", "G", "T", "B"}
  Design = "good"
SPECIFICATION Spec
INVARIANTS NoInterference Beginning Emit
CHECK_DEADLOCK FALSE
