SPECIFICATION Spec
CONSTANTS
  MaxBytes = 170
  Sizes = {0, 1, 2, 3, 4, 5, 6, 7, 8, 17, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 105, 106, 107, 108, 109, 110, 162, 163}
  Rooms = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 144, 145, 146, 147, 148, 149, 150, 151, 219, 220, 9999}
INVARIANTS Delivered Whole LineLengths DivisionIrrelevant Emit
ACTION_CONSTRAINT EmitEdge
VIEW NoHistory
CHECK_DEADLOCK FALSE
