SPECIFICATION Spec
CONSTANTS R = 9
 KMAX = 5
 GMAX = 5
INVARIANT Fast
INVARIANT Ends
INVARIANT Sign
CHECK_DEADLOCK FALSE
