SPECIFICATION Spec
CONSTANTS MaxPieces = 3
 MaxPiece = 2
 Ops = {"S"}
 Vias = {"api"}
INVARIANTS Honest Reported NoWorse
PROPERTY Ends
CHECK_DEADLOCK FALSE
