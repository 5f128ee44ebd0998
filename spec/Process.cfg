SPECIFICATION Spec
PROPERTIES Stable OptsStable
CHECK_DEADLOCK FALSE
