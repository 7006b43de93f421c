SPECIFICATION Spec
CONSTANTS
  Handles = {"h1"}
  MaxOps = 4
  WithDamage = FALSE
INVARIANTS MaterialOK LockedIff Emit
CHECK_DEADLOCK FALSE
