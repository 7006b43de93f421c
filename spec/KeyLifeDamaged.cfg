SPECIFICATION Spec
CONSTANTS
  Handles = {"h1"}
  MaxOps = 3
  WithDamage = TRUE
INVARIANTS MaterialOK NeverUsable LockedIff Emit
CHECK_DEADLOCK FALSE
