SPECIFICATION HSpec
POSTCONDITION Accepted
VIEW View
CHECK_DEADLOCK FALSE
