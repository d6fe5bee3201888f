SPECIFICATION Spec
CONSTANT MaxLevel = 2
INVARIANTS Tiling Nested Euler
CHECK_DEADLOCK FALSE
