SPECIFICATION Spec
CONSTANTS LO = 0
 HI = 5
INVARIANTS Nodal Exact Matrices Symmetric
CHECK_DEADLOCK FALSE
