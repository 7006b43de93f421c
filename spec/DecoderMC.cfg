SPECIFICATION Spec
CONSTANTS
  ByteCounts = {0, 1, 2, 3, 4, 5, 6}
  ReadSizes = {0, 1, 2, 5}
  Breaks <- MCBreaks
  Defects <- MCDefects
CONSTRAINT FewEmpty
INVARIANTS DeliveredPrefix CleanMeansAll BadIsNoticed Emit
CHECK_DEADLOCK FALSE
