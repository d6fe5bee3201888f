SPECIFICATION Spec
INVARIANT Field
INVARIANT Emit
CHECK_DEADLOCK FALSE
