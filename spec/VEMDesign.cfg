SPECIFICATION Spec
CONSTANT KMAX = 3
INVARIANTS Right Conforming Counted
CHECK_DEADLOCK FALSE
