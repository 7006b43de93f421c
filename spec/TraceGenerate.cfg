SPECIFICATION TSpec
CONSTANTS SecName = "k.sec"
 PubName = "k.pub"
POSTCONDITION Report
CHECK_DEADLOCK FALSE
