SPECIFICATION Spec
CONSTANTS Need <- MC_Need
 ReadAll = TRUE
INVARIANTS Fresh Works Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
