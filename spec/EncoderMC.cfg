SPECIFICATION Spec
CONSTANTS
  MaxBytes = 115
  Sizes = {0, 1, 2, 3, 4, 5, 17, 51, 52, 53, 54, 55, 56, 57, 107, 108, 109}
  Rooms = {0, 1, 3, 4, 5, 71, 72, 73, 74, 76, 77, 144, 145, 146, 147, 150, 9999}
INVARIANTS Delivered Whole LineLengths DivisionIrrelevant Emit
ACTION_CONSTRAINT EmitEdge
VIEW NoHistory
CHECK_DEADLOCK FALSE
