SPECIFICATION Spec
CONSTANTS
  MaxBytes = 900
  Sizes = {0, 1, 2, 3, 10, 27, 50, 53, 54, 55, 72, 81, 100, 107, 108, 162, 163, 215, 216, 217}
  Rooms = {200, 400, 700, 99999}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
