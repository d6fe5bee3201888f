SPECIFICATION Spec
CONSTANTS R = 4
 KMAX = 3
 GMAX = 3
INVARIANT Fast
INVARIANT Ends
INVARIANT Sign
CHECK_DEADLOCK FALSE
