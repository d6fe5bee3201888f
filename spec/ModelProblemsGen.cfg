SPECIFICATION Spec
INVARIANTS Valid Conserved Turning Emit
CHECK_DEADLOCK FALSE
