SPECIFICATION CSpec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
