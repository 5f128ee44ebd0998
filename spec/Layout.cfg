SPECIFICATION Spec
INVARIANTS Sound Unique Located
CHECK_DEADLOCK FALSE
