SPECIFICATION Spec
CONSTANTS SecName = "k.sec"
 PubName = "k.pub"
 Modes <- Bad_Modes
 Excl = TRUE
 Order <- MC_Order
INVARIANTS Always AtEnd Refused
PROPERTY Ends
CHECK_DEADLOCK FALSE
