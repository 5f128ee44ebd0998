SPECIFICATION Spec
INVARIANTS Permutes ReadsBack Idempotent Mirror
CHECK_DEADLOCK FALSE
