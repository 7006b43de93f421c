CONSTANTS
  N = 2
  Kinds = {"S", "D", "G", "T", "B"}
  Design = "good"
SPECIFICATION Spec
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
