SPECIFICATION Spec
CONSTANT B = 1
INVARIANTS Equivalent Unique
CHECK_DEADLOCK FALSE
