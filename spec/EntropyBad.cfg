SPECIFICATION Spec
CONSTANTS Need <- MC_Need
 ReadAll = FALSE
INVARIANTS Fresh Works
CHECK_DEADLOCK FALSE
