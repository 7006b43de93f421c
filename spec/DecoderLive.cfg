SPECIFICATION Spec
CONSTANTS
  ByteCounts = {0, 1, 2, 3, 4, 5, 6}
  ReadSizes = {0, 1, 2, 3, 4, 5, 7}
  Breaks <- LiveBreaks
  Defects <- LiveDefects
INVARIANTS DeliveredPrefix CleanMeansAll BadIsNoticed
PROPERTY Finishes
VIEW NoHistory
CHECK_DEADLOCK FALSE
