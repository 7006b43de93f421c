SPECIFICATION Spec
CONSTANTS MaxPieces = 4
 MaxPiece = 1
 Ops = {"G", "S", "E", "D"}
 Vias = {"api", "cli"}
INVARIANTS Honest Reported NoWorse Emit
CHECK_DEADLOCK FALSE
