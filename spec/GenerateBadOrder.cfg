SPECIFICATION Spec
CONSTANTS SecName = "k.sec"
 PubName = "k.pub"
 Modes <- MC_Modes
 Excl = TRUE
 Order <- Bad_Order
INVARIANTS Always AtEnd Refused
PROPERTY Ends
CHECK_DEADLOCK FALSE
