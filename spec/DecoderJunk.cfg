SPECIFICATION Spec
CONSTANTS
  ByteCounts = {4, 9, 11}
  ReadSizes = {2, 12}
  Breaks <- JunkBreaks
  Defects <- JunkDefects
INVARIANTS DeliveredPrefix CleanMeansAll BadIsNoticed Emit
CHECK_DEADLOCK FALSE
