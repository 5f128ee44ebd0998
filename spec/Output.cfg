SPECIFICATION Spec
INVARIANTS AllOrNothing Below Complete OneFile
CHECK_DEADLOCK FALSE
