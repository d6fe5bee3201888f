SPECIFICATION Spec
CONSTANTS LO = 0
 HI = 2
INVARIANTS Dual Exact Complex Oriented
CHECK_DEADLOCK FALSE
