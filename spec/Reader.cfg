SPECIFICATION Spec
INVARIANTS NeverBeyond InOrder Readable
PROPERTY Delivered
CHECK_DEADLOCK FALSE
