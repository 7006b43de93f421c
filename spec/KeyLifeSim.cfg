SPECIFICATION Spec
CONSTANTS
  Handles = {"h1", "h2"}
  MaxOps = 12
  WithDamage = FALSE
INVARIANTS MaterialOK LockedIff Emit
CHECK_DEADLOCK FALSE
