SPECIFICATION Spec
POSTCONDITION Accepted
VIEW View
CHECK_DEADLOCK FALSE
