SPECIFICATION VSpec
POSTCONDITION Accepted
VIEW View
CHECK_DEADLOCK FALSE
