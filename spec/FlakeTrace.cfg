SPECIFICATION Spec
CONSTRAINT Reached
POSTCONDITION Report
CHECK_DEADLOCK FALSE
