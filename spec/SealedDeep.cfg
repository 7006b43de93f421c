SPECIFICATION Spec
CONSTANTS
  ShapesA <- MCShapesBig
  ShapeB <- MCShapeB
  ShapeC <- MCShapeC
  MaxEdits = 3
  EmitAll = FALSE
VIEW View
INVARIANTS DesignOK Emit
CHECK_DEADLOCK FALSE
