SPECIFICATION Spec
CONSTANTS
  Handles = {"h1"}
  MaxOps = 24
  WithDamage = FALSE
ACTION_CONSTRAINT Patient
INVARIANTS MaterialOK LockedIff Emit
CHECK_DEADLOCK FALSE
