SPECIFICATION Spec
CONSTANTS
  ShapesA <- MCShapesSim
  ShapeB <- MCShapeB
  ShapeC <- MCShapeC
  MaxEdits = 6
  EmitAll = TRUE

INVARIANTS DesignOK Emit
CHECK_DEADLOCK FALSE
