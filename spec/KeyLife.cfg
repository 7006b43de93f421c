SPECIFICATION Spec
CONSTANTS
  Handles = {"h1", "h2"}
  MaxOps = 40
  WithDamage = TRUE
VIEW View
INVARIANTS MaterialOK NeverUsable LockedIff
CHECK_DEADLOCK FALSE
