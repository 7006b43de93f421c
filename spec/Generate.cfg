SPECIFICATION Spec
CONSTANTS SecName = "k.sec"
 PubName = "k.pub"
 Modes <- MC_Modes
 Excl = TRUE
 Order <- MC_Order
INVARIANTS Always AtEnd Refused Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
