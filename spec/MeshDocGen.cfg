SPECIFICATION Spec
INVARIANTS Valid Emit
CHECK_DEADLOCK FALSE
