SPECIFICATION Spec
CONSTANTS
  ShapesA <- MCShapesA
  ShapeB <- MCShapeB
  ShapeC <- MCShapeC
  MaxEdits = 2
  EmitAll = TRUE
VIEW View
INVARIANTS DesignOK Emit
CHECK_DEADLOCK FALSE
