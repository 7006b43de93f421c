SPECIFICATION Spec
CONSTANTS
  ByteCounts = {10, 53, 54, 55, 107, 108, 109, 110, 161, 162, 200}
  ReadSizes = {1, 2, 3, 4, 7, 16, 53, 54, 55, 64, 72, 100, 108}
  Breaks <- SimBreaks
  Defects <- SimDefects
INVARIANTS DeliveredPrefix CleanMeansAll BadIsNoticed Emit
CHECK_DEADLOCK FALSE
