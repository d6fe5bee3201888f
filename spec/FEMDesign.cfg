SPECIFICATION Spec
CONSTANTS LO = 0
 HI = 3
INVARIANTS Nodal Exact Matrices Symmetric
CHECK_DEADLOCK FALSE
