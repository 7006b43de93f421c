SPECIFICATION Spec
CONSTANTS
  ByteCounts = {0, 1, 2, 3, 4, 5, 6, 7}
  ReadSizes = {0, 1, 2, 3, 5}
  Breaks <- MCBreaks
  Defects <- MCDefects
CONSTRAINT FewEmpty
INVARIANTS DeliveredPrefix CleanMeansAll BadIsNoticed Emit
CHECK_DEADLOCK FALSE
