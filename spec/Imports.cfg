SPECIFICATION Spec
INVARIANTS Decides Ordered Warned StackOk Placed
CHECK_DEADLOCK FALSE
